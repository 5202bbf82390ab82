"""Variants of the analysed sources: 'breaks' lists the properties that no longer hold."""

ALL = {}
BC = "bmaptools/BmapCopy.py"


def bug(name, breaks, *edits):
    ALL["bug-" + name] = {"breaks": breaks, "edits": edits}


def same(name, *edits):
    ALL["same-" + name] = {"breaks": "", "edits": edits}


# ------------------------------------------------------------------ copying

bug("verify-only-with-sync", "C01", (BC, "                if verify and chksum and hash_obj.hexdigest() != chksum:", "                if verify and chksum and first != last and hash_obj.hexdigest() != chksum:"))
bug("hash-before-check-skips-last", "C01", (BC, "                    if verify and chksum:\n                        hash_obj.update(buf)", "                    if verify and chksum and end != last:\n                        hash_obj.update(buf)"))
bug("hash-not-reset", "C01", (BC, "                if verify and chksum:\n                    hash_obj = hashlib.new(self._cs_type)\n", "                if verify and chksum and not first:\n                    hash_obj = hashlib.new(self._cs_type)\n"))
bug("chksum-case", "C01", (BC, "hash_obj.hexdigest() != chksum:", "hash_obj.hexdigest()[:8] != chksum[:8]:"))
bug("chksum-only-multi", "C01", (BC, "            if self._cs_attrib_name in xml_element.attrib:", "            if self._cs_attrib_name in xml_element.attrib and len(split) > 1:"))
bug("mismatch-warns", "C01", (BC, '''                    raise Error(
                        "checksum mismatch for blocks range''', '''                    _log.warning(
                        "checksum mismatch for blocks range'''))
bug("batches-drop-tail", "C02", (BC, "        if batch_blocks:\n            yield (first", "        if batch_blocks > 1:\n            yield (first"))
same("batches-big-tail", (BC, "        while first + batch_blocks - 1 <= last:", "        while first + batch_blocks - 1 < last - batch_blocks:"))
bug("no-mapped-check", "C02", (BC, "        if blocks_written != self.mapped_cnt:", "        if blocks_written > self.mapped_cnt:"))
bug("early-none", "C02", (BC, "        for xml_element in xml_bmap.findall(\"Range\"):", "        for xml_element in xml_bmap.findall(\"Range\")[:1000]:"))
bug("range-size1", "C02", (BC, "                last = int(split[-1])", "                last = int(split[-1]) - (len(split) > 1)"))
bug("seek-writer", "C03", (BC, "            self._f_dest.seek(start * self.block_size)\n", "            if start != end:\n                self._f_dest.seek(start * self.block_size)\n"))
bug("seek-reader-zero", "C03", (BC, "                self._f_image.seek(first * self.block_size)\n", "                if first:\n                    self._f_image.seek(first * self.block_size)\n"))
bug("seek-before-sync", "C03", (BC, "self._f_dest.seek(start * self.block_size)", "self._f_dest.seek(blocks_written * self.block_size)"))
bug("reader-except-ioerror", "C04", (BC, "        except Exception:\n            # pylint: enable=W0703", "        except (Error, IOError):\n            # pylint: enable=W0703"))
bug("reader-error-swallowed", "C04", (BC, '''            self._batch_queue.put(("error", sys.exc_info()))

        self._batch_queue.put(None)''', '''            if not self._f_bmap:
                self._batch_queue.put(("error", sys.exc_info()))

        self._batch_queue.put(None)'''))
bug("writer-ignores-error", "C04", (BC, '''                exc_info = batch[1]
                reraise(exc_info[0], exc_info[1], exc_info[2])''', '''                exc_info = batch[1]
                if not blocks_written:
                    reraise(exc_info[0], exc_info[1], exc_info[2])
                break'''))
bug("reader-none-missing", "C04", (BC, '''                        self._batch_queue.put(None)
                        return
''', '''                        return
'''))
bug("truncate-bytes", "C05", (BC, '''                os.ftruncate(self._f_dest.fileno(), self.image_size)
            except OSError as err:
                raise Error("cannot truncate file '%s': %s" % (self._dest_path, err))

        if sync:''', '''                os.ftruncate(self._f_dest.fileno(), bytes_written)
            except OSError as err:
                raise Error("cannot truncate file '%s': %s" % (self._dest_path, err))

        if sync:'''))
bug("no-final-truncate", "C05", (BC, '''        if self._dest_is_regfile:
            # Make sure the destination''', '''        if self._dest_is_regfile and not self.image_size:
            # Make sure the destination'''))
bug("unknown-size-blocks", "C05", (BC, "            self._set_image_size(bytes_written)", "            self._set_image_size(blocks_written * self.block_size)"))
bug("sync-no-flush", "C06", (BC, '''        try:
            self._f_dest.flush()
        except IOError as err:
            raise Error("cannot flush '%s': %s" % (self._dest_path, err))
''', ''''''))
bug("sync-regfile-only", "C06", (BC, "        if sync:\n", "        if sync and self._dest_is_regfile:\n"))
bug("sync-error-ignored", "C06", (BC, '''            except OSError as err:
                raise Error(
                    "cannot synchronize''', '''            except OSError as err:
                _log.warning(
                    "cannot synchronize'''))
bug("devnull-any-chr", "C06", (BC, '''            and os.major(st_data.st_rdev) == 1
''', ''))

same("iter-get", (BC, '''        while True:
            batch = self._batch_queue.get()
            if batch is None:
                # No more data, the image is written
                break
            elif batch[0] == "error":''', '''        for batch in iter(self._batch_queue.get, None):
            if batch[0] == "error":'''))
same("reader-finally", (BC, '''        _log.debug("the reader thread has started")
        try:
            for (first''', '''        _log.debug("the reader thread has started")
        queue = self._batch_queue
        try:
            for (first'''), (BC, '''                        self._batch_queue.put(None)
                        return
''', '''                        return
'''), (BC, '''            self._batch_queue.put(("error", sys.exc_info()))

        self._batch_queue.put(None)''', '''            queue.put(("error", sys.exc_info()))
        finally:
            queue.put(None)'''))
same("verify-helper", (BC, '''                if verify and chksum and hash_obj.hexdigest() != chksum:
                    raise Error(
                        "checksum mismatch for blocks range %d-%d: "
                        "calculated %s, should be %s (image file %s)"
                        % (first, last, hash_obj.hexdigest(), chksum, self._image_path)
                    )
''', '''                if verify and chksum:
                    self._check_chksum(hash_obj, first, last, chksum)
'''), (BC, '''    def copy(self, sync=True, verify=True):''', '''    def _check_chksum(self, hash_obj, first, last, chksum):
        calculated = hash_obj.hexdigest()
        if calculated == chksum:
            return
        raise Error(
            "checksum mismatch for blocks range %d-%d: "
            "calculated %s, should be %s (image file %s)"
            % (first, last, calculated, chksum, self._image_path)
        )

    def copy(self, sync=True, verify=True):'''))
same("hash-obj-none", (BC, '''                if verify and chksum:
                    hash_obj = hashlib.new(self._cs_type)
''', '''                check = verify and chksum
                hash_obj = hashlib.new(self._cs_type) if check else None
'''), (BC, '''                    if verify and chksum:
                        hash_obj.update(buf)''', '''                    if hash_obj is not None:
                        hash_obj.update(buf)'''), (BC, "if verify and chksum and hash_obj.hexdigest() != chksum:", "if hash_obj is not None and hash_obj.hexdigest() != chksum:"))
same("attrib-get", (BC, '''            if self._cs_attrib_name in xml_element.attrib:
                chksum = xml_element.attrib[self._cs_attrib_name]
            else:
                chksum = None

            yield (first, last, chksum)''', '''            yield (first, last, xml_element.get(self._cs_attrib_name))'''))
RG = '''            split = [x.strip() for x in blocks_range.split("-", 1)]

            try:
                first = int(split[0])
                last = int(split[-1])
            except ValueError:
                raise Error("bad range (not a number): '%s'" % blocks_range)
            if first > last:
                raise Error("bad range (first > last): '%s'" % blocks_range)
'''
same("partition", (BC, RG, '''            text1, dash, text2 = blocks_range.partition("-")
            try:
                first = int(text1)
                last = int(text2.strip()) if dash else first
            except ValueError:
                raise Error("bad range (not a number): '%s'" % blocks_range)
            if last < first:
                raise Error("bad range (first > last): '%s'" % blocks_range)
'''))
same("range-helper", (BC, RG, '''            first, last = self._parse_range(blocks_range)
'''), (BC, '''    def _get_batches(self''', '''    @staticmethod
    def _parse_range(blocks_range):
        try:
            numbers = [int(x) for x in blocks_range.split("-", 1)]
        except ValueError as err:
            raise Error("bad range '%s': %s" % (blocks_range, err))
        first = numbers[0]
        last = numbers[-1]
        if first > last:
            raise Error("bad range (first > last): '%s'" % blocks_range)
        return first, last

    def _get_batches(self'''))
bug("malformed-range", "C10", (BC, RG, RG.replace("except ValueError", "except TypeError")))
bug("malformed-empty-range", "C10", (BC, '(xml_element.text or "")', "xml_element.text"))
bug("malformed-version", "C10", (BC, "                IndexError,\n", ""))
bug("malformed-zero", "C10", (BC, "if self.block_size < 1 or self.mapped_cnt", "if self.mapped_cnt"))
bug("malformed-size", "C10", (BC, " or self.image_size < 0:", ":"))
bug("malformed-number", "C10", (BC, "                ValueError,\n", ""))
bug("malformed-missing", "C10", (BC, "                AttributeError,\n", ""))
bug("malformed-unfound", "C10", (BC, "        if chksum_pos == -1:\n", "        assert chksum_pos != -1\n        if chksum_pos == -1:\n"))
same("malformed-any", (BC, """            except (
                AttributeError,
                IndexError,
                TypeError,
                ValueError,
                ZeroDivisionError,
            ) as err:
""", """            except Error:
                raise
            except (LookupError, ArithmeticError, AttributeError, TypeError, ValueError) as err:
"""))
same("malformed-each", (BC, """        if self.block_size < 1 or self.mapped_cnt < 0 or self.image_size < 0:
            raise Error("bad sizes in the bmap file '%s'" % self._bmap_path)
""", """        for number, least in ((self.block_size, 1), (self.mapped_cnt, 0), (self.image_size, 0)):
            if number < least:
                raise Error("bad sizes in the bmap file '%s'" % self._bmap_path)
"""))
same("batches-min", (BC, '''        batch_blocks = self._batch_blocks

        while first + batch_blocks - 1 <= last:
            yield (first, first + batch_blocks - 1, batch_blocks)
            first += batch_blocks

        batch_blocks = last - first + 1
        if batch_blocks:
            yield (first, first + batch_blocks - 1, batch_blocks)''', '''        while first <= last:
            length = min(self._batch_blocks, last - first + 1)
            yield (first, first + length - 1, length)
            first += length'''))
same("batches-range", (BC, '''        batch_blocks = self._batch_blocks

        while first + batch_blocks - 1 <= last:
            yield (first, first + batch_blocks - 1, batch_blocks)
            first += batch_blocks

        batch_blocks = last - first + 1
        if batch_blocks:
            yield (first, first + batch_blocks - 1, batch_blocks)''', '''        for start in range(first, last + 1, self._batch_blocks):
            end = min(start + self._batch_blocks - 1, last)
            yield (start, end, end - start + 1)'''))
same("writer-helper", (BC, '''            self._f_dest.seek(start * self.block_size)

            # Synch''', '''            # Synch'''), (BC, '''            try:
                self._f_dest.write(buf)
            except IOError as err:
                raise Error(
                    "error while writing blocks %d-%d of '%s': %s"
                    % (start, end, self._dest_path, err)
                )

            self._batch_queue.task_done()''', '''            self._write_batch(start, end, buf)
            self._batch_queue.task_done()'''), (BC, '''    def sync(self):''', '''    def _write_batch(self, start, end, buf):
        self._f_dest.seek(start * self.block_size)
        try:
            self._f_dest.write(buf)
        except IOError as err:
            raise Error(
                "error while writing blocks %d-%d of '%s': %s"
                % (start, end, self._dest_path, err)
            )

    def sync(self):'''))
same("sync-early-return", (BC, '''        if self._dest_supports_fsync:
            try:
                os.fsync(self._f_dest.fileno()),
            except OSError as err:
                raise Error(
                    "cannot synchronize '%s': %s " % (self._dest_path, err.strerror)
                )''', '''        if not self._dest_supports_fsync:
            return
        try:
            os.fsync(self._f_dest.fileno())
        except OSError as err:
            raise Error(
                "cannot synchronize '%s': %s " % (self._dest_path, err.strerror)
            )'''))
same("devnull-expr", (BC, '''        if (
            stat.S_ISCHR(st_data.st_mode)
            and os.major(st_data.st_rdev) == 1
            and os.minor(st_data.st_rdev) == 3
        ):
            self._dest_supports_fsync = False
        else:
            self._dest_supports_fsync = True
''', '''        self._dest_supports_fsync = not (
            stat.S_ISCHR(st_data.st_mode)
            and (os.major(st_data.st_rdev), os.minor(st_data.st_rdev)) == (1, 3)
        )
'''))
same("dict-msg", (BC, '''            elif batch[0] == "error":
                # The reader thread encountered an error and passed us the
                # exception.
                exc_info = batch[1]
                reraise(exc_info[0], exc_info[1], exc_info[2])

            (start, end, buf) = batch[1:4]
''', '''            kind = batch[0]
            if kind == "error":
                # The reader thread encountered an error and passed us the
                # exception.
                reraise(*batch[1])

            _, start, end, buf = batch
'''))
same("truncate-helper", (BC, '''        if self.image_size and self._dest_is_regfile:
            # If we already know image size, make sure that destination file
            # has the same size as the image
            try:
                os.ftruncate(self._f_dest.fileno(), self.image_size)
            except OSError as err:
                raise Error("cannot truncate file '%s': %s" % (self._dest_path, err))
''', '''        if self.image_size:
            self._truncate()
'''), (BC, '''        if self._dest_is_regfile:
            # Make sure the destination file has the same size as the image
            try:
                os.ftruncate(self._f_dest.fileno(), self.image_size)
            except OSError as err:
                raise Error("cannot truncate file '%s': %s" % (self._dest_path, err))
''', '''        self._truncate()
'''), (BC, '''    def sync(self):''', '''    def _truncate(self):
        if not self._dest_is_regfile:
            return
        try:
            os.ftruncate(self._f_dest.fileno(), self.image_size)
        except OSError as err:
            raise Error("cannot truncate file '%s': %s" % (self._dest_path, err))

    def sync(self):'''))
same("mapped-ne", (BC, "        if blocks_written != self.mapped_cnt:", "        if not blocks_written == self.mapped_cnt:"))
same("image-size-none", (BC, "        if not self.image_size:\n            # The image size was", "        if self.image_size in (None, 0):\n            # The image size was"))
same("threading", (BC, "        thread.start_new_thread(self._get_data, (verify,))", "        reader = threading.Thread(target=self._get_data, args=(verify,))\n        reader.daemon = True\n        reader.start()"), (BC, "import hashlib\n", "import hashlib\nimport threading\n"))
same("ceil-helper", (BC, "                    blocks = (len(buf) + self.block_size - 1) // self.block_size\n", "                    blocks = self._to_blocks(len(buf))\n"), (BC, '''    def copy(self, sync=True, verify=True):''', '''    def _to_blocks(self, size):
        blocks, rest = divmod(size, self.block_size)
        return blocks + (1 if rest else 0)

    def copy(self, sync=True, verify=True):'''))
same("noop", (BC, "        batch_blocks = self._batch_blocks\n", "        batch_blocks = self._batch_blocks\n        pass\n"), (BC, "        blocks_written = 0\n", "        unused = None\n        blocks_written = 0\n"))
same("ceil-neg", (BC, "                    blocks = (len(buf) + self.block_size - 1) // self.block_size\n", "                    blocks = -(-len(buf) // self.block_size)\n"))
same("ceil-mod", (BC, "                    blocks = (len(buf) + self.block_size - 1) // self.block_size\n", "                    blocks = len(buf) // self.block_size\n                    if len(buf) % self.block_size:\n                        blocks += 1\n"))
same("count-end", (BC, "            blocks_written += end - start + 1\n", "            blocks_written += (len(buf) + self.block_size - 1) // self.block_size\n"))

# ------------------------------------------------------------------ bmap gates

VB = '''        mapped_bmap = mmap.mmap(self._f_bmap.fileno(), 0, access=mmap.ACCESS_COPY)

        chksum_pos = mapped_bmap.find(correct_chksum.encode())
        if chksum_pos == -1:
            raise Error(
                "cannot find the checksum of bmap file '%s' in it" % self._bmap_path
            )

        mapped_bmap[chksum_pos : chksum_pos + self._cs_len] = b"0" * self._cs_len

        hash_obj = hashlib.new(self._cs_type)
        hash_obj.update(mapped_bmap)
        calculated_chksum = hash_obj.hexdigest()

        mapped_bmap.close()
'''
bug("bmapsum-14-only", "C09", (BC, "            self._verify_bmap_checksum()\n", "            if self.bmap_version_minor in (3, 4):\n                self._verify_bmap_checksum()\n"))
bug("bmapsum-13-skipped", "C09", (BC, '''            self._cs_type = "sha1"
''', '''            self._cs_type = None
'''))
bug("bmapsum-prefix", "C09", (BC, "        if calculated_chksum != correct_chksum:", "        if not calculated_chksum.startswith(correct_chksum):"))
bug("bmapsum-short", "C09", (BC, '= b"0" * self._cs_len', '= b"0" * len(correct_chksum)'), (BC, "chksum_pos + self._cs_len]", "chksum_pos + len(correct_chksum)]"), (BC, "        if calculated_chksum != correct_chksum:", "        if correct_chksum and calculated_chksum != correct_chksum:"))
bug("bmapsum-rfind", "C09", (BC, "mapped_bmap.find(correct", "mapped_bmap.rfind(correct"))
bug("bmapsum-tail", "C09", (BC, "hash_obj.update(mapped_bmap)", "hash_obj.update(mapped_bmap[:chksum_pos + self._cs_len])"))
bug("bmapsum-warn", "C09", (BC, '''            raise Error(
                "checksum mismatch for bmap file''', '''            _log.warning(
                "checksum mismatch for bmap file'''))
bug("bmapsum-missing", "C09", (BC, "        correct_chksum = self._xml.find(self._bmap_cs_attrib_name).text.strip()\n", "        element = self._xml.find(self._bmap_cs_attrib_name)\n        if element is None:\n            return\n        correct_chksum = element.text.strip()\n"))
bug("bmapsum-upper", "C09", (BC, "        if calculated_chksum != correct_chksum:", "        if calculated_chksum[:16] != correct_chksum[:16]:"))
same("bmapsum-len", (BC, '= b"0" * self._cs_len', '= b"0" * len(correct_chksum)'), (BC, "chksum_pos + self._cs_len]", "chksum_pos + len(correct_chksum)]"))
same("bmapsum-read", (BC, VB, '''        self._f_bmap.seek(0)
        contents = self._f_bmap.read()
        chksum_pos = contents.find(correct_chksum.encode())
        if chksum_pos == -1:
            raise Error("no checksum")
        contents = contents[:chksum_pos] + b"0" * self._cs_len + contents[chksum_pos + self._cs_len:]
        calculated_chksum = hashlib.new(self._cs_type, contents).hexdigest()
'''))
same("bmapsum-parts", (BC, VB, '''        mapped_bmap = mmap.mmap(self._f_bmap.fileno(), 0, access=mmap.ACCESS_READ)
        chksum_pos = mapped_bmap.find(correct_chksum.encode())
        if chksum_pos < 0:
            raise Error("no checksum")
        end = chksum_pos + self._cs_len
        hash_obj = hashlib.new(self._cs_type)
        hash_obj.update(mapped_bmap[:chksum_pos])
        hash_obj.update(b"0" * self._cs_len)
        hash_obj.update(mapped_bmap[end:])
        mapped_bmap.close()
        calculated_chksum = hash_obj.hexdigest()
'''))
same("bmapsum-with", (BC, VB, '''        recorded = correct_chksum.encode("ascii")
        with mmap.mmap(self._f_bmap.fileno(), 0, access=mmap.ACCESS_COPY) as m:
            calculated_chksum = self._zeroed_digest(m, recorded)
'''), (BC, "    def _parse_bmap(self):", '''    def _zeroed_digest(self, data, recorded):
        pos = data.find(recorded)
        if pos == -1:
            raise Error("no checksum in the bmap file")
        zeroes = b"0" * self._cs_len
        data[pos : pos + len(zeroes)] = zeroes
        hash_obj = hashlib.new(self._cs_type)
        hash_obj.update(data)
        return hash_obj.hexdigest()

    def _parse_bmap(self):'''))
same("bmapsum-replace", (BC, VB, '''        self._f_bmap.seek(0)
        contents = self._f_bmap.read()
        zeroed = contents.replace(correct_chksum.encode(), b"0" * self._cs_len, 1)
        calculated_chksum = hashlib.new(self._cs_type, zeroed).hexdigest()
'''))
same("bmapsum-return", (BC, '''        if calculated_chksum != correct_chksum:
            raise Error(''', '''        if calculated_chksum == correct_chksum:
            return
        else:
            raise Error('''))
bug("version-13-off", "C09 C10", (BC, "        elif self.bmap_version_minor == 3:", "        elif self.bmap_version_minor == 2:"))
bug("version-gate", "C10", (BC, "        if self.bmap_version_major > int(SUPPORTED", "        if self.bmap_version_minor > int(SUPPORTED"))
bug("version-gate-str", "C10", (BC, '        if self.bmap_version_major > int(SUPPORTED_BMAP_VERSION.split(".", 1)[0]):', '        if self.bmap_version > SUPPORTED_BMAP_VERSION:'))
bug("version-gate-3", "C10", (BC, '        if self.bmap_version_major > int(SUPPORTED_BMAP_VERSION.split(".", 1)[0]):', '        if self.bmap_version_major > int(SUPPORTED_BMAP_VERSION.split(".", 1)[0]) + 1:'))
bug("version-10", "C10", (BC, '        if self.bmap_version_major > int(SUPPORTED_BMAP_VERSION.split(".", 1)[0]):', '        if int(self.bmap_version[0]) > int(SUPPORTED_BMAP_VERSION.split(".", 1)[0]):'))
bug("version-12", "C10", (BC, "        elif self.bmap_version_minor == 3:", "        elif self.bmap_version_minor <= 3:"))
bug("version-14", "C10", (BC, "self.bmap_version_major == 1 and self.bmap_version_minor == 4", "self.bmap_version_major == 1 and self.bmap_version_minor > 4"))
bug("version-range-attr", "C01 C10", (BC, '            self._cs_attrib_name = "sha1"', '            self._cs_attrib_name = "chksum"'))
same("version-tuple", (BC, '''        self.bmap_version_major = int(self.bmap_version.split(".", 1)[0])
        self.bmap_version_minor = int(self.bmap_version.split(".", 1)[1])
''', '''        version = tuple(int(x) for x in self.bmap_version.split(".", 1))
        (self.bmap_version_major, self.bmap_version_minor) = version
'''), (BC, '''        if self.bmap_version_major > 1 or (
            self.bmap_version_major == 1 and self.bmap_version_minor == 4
        ):''', '''        if version >= (1, 4):'''), (BC, "        elif self.bmap_version_minor == 3:", "        elif version == (1, 3):"))
same("version-helper", (BC, '''        self.bmap_version_major = int(self.bmap_version.split(".", 1)[0])
        self.bmap_version_minor = int(self.bmap_version.split(".", 1)[1])
''', '''        self._split_version()
'''), (BC, "    def _parse_bmap(self):", '''    def _split_version(self):
        major, minor = self.bmap_version.split(".", 1)
        self.bmap_version_major = int(major)
        self.bmap_version_minor = int(minor)

    def _parse_bmap(self):'''))
bug("geometry-loose", "C11", (BC, "        if self.blocks_cnt != blocks_cnt:", "        if self.blocks_cnt < blocks_cnt:"))
bug("geometry-floor", "C11", (BC, "        blocks_cnt = (self.image_size + self.block_size - 1) // self.block_size\n        if self.b", "        blocks_cnt = self.image_size // self.block_size\n        if self.b"))
bug("geometry-10", "C11", (BC, "        if self.blocks_cnt != blocks_cnt:", "        if self.blocks_cnt != blocks_cnt and self.bmap_version_minor >= 3:"))
bug("size-contradiction", "C11", (BC, "        if self.image_size is not None and self.image_size != image_size:", "        if self.image_size is not None and self.image_size < image_size:"))
bug("size-ignored", "C11", (BC, "        if image_size:\n            self._set", "        if image_size and not bmap:\n            self._set"))
bug("range-order", "C11", (BC, "            if first > last:\n", "            if first > last + 1:\n"))
bug("range-order-warn", "C11", (BC, '            if first > last:\n                raise Error("bad range (first > last): \'%s\'" % blocks_range)', '            if first > last:\n                last, first = first, last'))
same("geometry-helper", (BC, "        blocks_cnt = (self.image_size + self.block_size - 1) // self.block_size\n        if self.b", "        blocks_cnt, rest = divmod(self.image_size, self.block_size)\n        if rest:\n            blocks_cnt += 1\n        if self.b"))
same("size-early", (BC, '''        if self.image_size is not None and self.image_size != image_size:
            raise''', '''        if not (self.image_size is None or self.image_size == image_size):
            raise'''))
same("order-first", (BC, '''        self.block_size = int(xml.find("BlockSize").text.strip())
''', ''), (BC, '''        if self.block_size < 1''', '''        self.block_size = int(xml.find("BlockSize").text.strip())
        if self.block_size < 1'''))
same("get-int", (BC, '''        self.block_size = int(xml.find("BlockSize").text.strip())
        self.blocks_cnt = int(xml.find("BlocksCount").text.strip())
        self.mapped_cnt = int(xml.find("MappedBlocksCount").text.strip())
        self.image_size = int(xml.find("ImageSize").text.strip())
''', '''        self.block_size = self._get_int("BlockSize")
        self.blocks_cnt = self._get_int("BlocksCount")
        self.mapped_cnt = self._get_int("MappedBlocksCount")
        self.image_size = self._get_int("ImageSize")
'''), (BC, "    def _parse_bmap(self):", '''    def _get_int(self, tag):
        return int(self._xml.find(tag).text.strip())

    def _parse_bmap(self):'''))
# ------------------------------------------------------------------ block devices

bug("sysfs-exit-on-success", "C07", (BC, "        if self.modified:\n            try:\n                _log.debug(f\"setting {self.path} back", "        if self.modified and exc_type is None:\n            try:\n                _log.debug(f\"setting {self.path} back"))
bug("sysfs-exit-not-interrupt", "C07", (BC, "        if self.modified:\n            try:\n                _log.debug(f\"setting {self.path} back", "        if self.modified and exc_type is not KeyboardInterrupt:\n            try:\n                _log.debug(f\"setting {self.path} back"))
bug("sysfs-restore-whole", "C07", (BC, "            return match.group(2)\n", "            return match.group(0)\n"))
bug("sysfs-regex", "C07", (BC, r'''re.compile(r"([^\[\]]*)\[([^ \]]+)\]([^\[\]]*)")''', r'''re.compile(r"([^\[\]]*)\[([a-z]+)\]([^\[\]]*)")'''))
bug("sysfs-regex-first", "C07", (BC, "        match = self.re_current_selection.match(contents)\n", "        match = self.re_current_selection.fullmatch(contents + \" \") if contents.startswith(\"[\") else None\n"))
bug("sysfs-modified-late", "C07", (BC, "                self.modified = True\n", "                self.modified = bool(self.options)\n"))
bug("sysfs-swallow", "C07 C04", (BC, "                raise Error(f\"cannot restore {self.path} to '{self.old_value}': {exc}\")\n        return False", "                raise Error(f\"cannot restore {self.path} to '{self.old_value}': {exc}\")\n        return self.modified"))
bug("sysfs-restore-error-ignored", "C07", (BC, "                raise Error(f\"cannot restore {self.path} to '{self.old_value}': {exc}\")\n", "                _log.warning(f\"cannot restore {self.path} to '{self.old_value}': {exc}\")\n"))
bug("sysfs-fatal", "C07", (BC, '''            except IOError as exc:
                if self.suppress_ioerrors:
                    self.error = exc
                else:
                    raise
        return self''', '''            except PermissionError as exc:
                if self.suppress_ioerrors:
                    self.error = exc
                else:
                    raise
        return self'''))
same("sysfs-always-write", (BC, "        if self.old_value != self.temp_value:", "        if self.old_value:"))
bug("sysfs-two-paths", "C07", (BC, '''        with SysfsChange(self._sysfs_max_ratio_path, "1") as max_ratio_chg, SysfsChange(
            self._sysfs_scheduler_path, "none"
        ) as scheduler_chg:
''', '''        scheduler_chg = SysfsChange(self._sysfs_scheduler_path, "none").__enter__()
        with SysfsChange(self._sysfs_max_ratio_path, "1") as max_ratio_chg:
'''), (BC, "            super().copy(sync, verify)", "            super().copy(sync, verify)\n        scheduler_chg.__exit__(None, None, None)"))
bug("bdev-no-sync", "C06", (BC, "            super().copy(sync, verify)", "            super().copy(verify, sync)"))
bug("bdev-verify-off", "C01", (BC, "            super().copy(sync, verify)", "            super().copy(sync=sync, verify=verify and sync)"))
bug("bdev-watermark-seek", "C03", (BC, "                    fsync_last = blocks_written\n                    self.sync()", "                    fsync_last = blocks_written\n                    self.sync()\n                    self._f_dest.seek(blocks_written * self.block_size)"))
same("sysfs-find", (BC, '''        match = self.re_current_selection.match(contents)
        if match:
            self.options = "".join(match.groups()[0:3]).split(" ")
            return match.group(2)
        else:
            return contents
''', '''        if "[" in contents:
            before, rest = contents.split("[", 1)
            current, after = rest.split("]", 1)
            self.options = (before + current + after).split()
            return current
        return contents
'''))
same("sysfs-try-finally", (BC, '''        with SysfsChange(self._sysfs_max_ratio_path, "1") as max_ratio_chg, SysfsChange(
            self._sysfs_scheduler_path, "none"
        ) as scheduler_chg:
''', '''        with SysfsChange(self._sysfs_max_ratio_path, "1") as max_ratio_chg:
          with SysfsChange(path=self._sysfs_scheduler_path, temp_value="none") as scheduler_chg:
'''))
same("sysfs-exitstack", (BC, '''        with SysfsChange(self._sysfs_max_ratio_path, "1") as max_ratio_chg, SysfsChange(
            self._sysfs_scheduler_path, "none"
        ) as scheduler_chg:
''', '''        import contextlib
        with contextlib.ExitStack() as stack:
            max_ratio_chg = stack.enter_context(SysfsChange(self._sysfs_max_ratio_path, "1"))
            scheduler_chg = stack.enter_context(SysfsChange(self._sysfs_scheduler_path, "none"))
'''))
same("sysfs-helpers", (BC, '''        if self.old_value != self.temp_value:
            try:
                _log.debug(f"setting {self.path} to '{self.temp_value}'")
                self._write(self.temp_value)
                self.modified = True
            except IOError as exc:
                if self.suppress_ioerrors:
                    self.error = exc
                else:
                    raise
        return self
''', '''        if self.old_value != self.temp_value:
            self._tune()
        return self

    def _tune(self):
        try:
            _log.debug(f"setting {self.path} to '{self.temp_value}'")
            self._write(self.temp_value)
        except IOError as exc:
            if not self.suppress_ioerrors:
                raise
            self.error = exc
        else:
            self.modified = True
'''))
same("sysfs-open-close", (BC, '''        with open(self.path, "w") as f:
            f.write(value)
''', '''        f = open(self.path, mode="w")
        try:
            f.write(value)
        finally:
            f.close()
'''))
same("sysfs-contextmanager", (BC, '''        with SysfsChange(self._sysfs_max_ratio_path, "1") as max_ratio_chg, SysfsChange(
            self._sysfs_scheduler_path, "none"
        ) as scheduler_chg:
''', '''        with self._tuned() as (max_ratio_chg, scheduler_chg):
'''), (BC, '''    def copy(self, sync=True, verify=True):
        """
        The same as in the base class but tunes''', '''    @contextlib.contextmanager
    def _tuned(self):
        with SysfsChange(self._sysfs_max_ratio_path, "1") as ratio:
            with SysfsChange(self._sysfs_scheduler_path, "none") as scheduler:
                yield ratio, scheduler

    def copy(self, sync=True, verify=True):
        """
        The same as in the base class but tunes'''), (BC, "import hashlib\n", "import contextlib\nimport hashlib\n"))
bug("capacity-le", "C08", (BC, "            if bdev_size < self.image_size:", "            if bdev_size + 512 < self.image_size:"))
bug("capacity-nobmap", "C08", (BC, "        if self.image_size:\n            try:\n                bdev", "        if self.image_size and not bmap:\n            try:\n                bdev"))
bug("capacity-mapped", "C08", (BC, "            if bdev_size < self.image_size:", "            if bdev_size < (self.mapped_size or self.image_size):"))
bug("capacity-param", "C08", (BC, "        if self.image_size:\n            try:\n                bdev", "        if image_size:\n            try:\n                bdev"))
bug("capacity-warn", "C08", (BC, '''                raise Error(
                    "the image file '%s' has size %s and''', '''                _log.warning(
                    "the image file '%s' has size %s and'''))
bug("capacity-cur", "C08", (BC, "os.lseek(self._f_dest.fileno(), 0, os.SEEK_END)", "os.lseek(self._f_dest.fileno(), 0, os.SEEK_CUR) or self.image_size"))
bug("capacity-blocks", "C08", (BC, "            if bdev_size < self.image_size:", "            if bdev_size // self.block_size < self.image_size // self.block_size:"))
same("capacity-helper", (BC, '''            try:
                bdev_size = os.lseek(self._f_dest.fileno(), 0, os.SEEK_END)
                os.lseek(self._f_dest.fileno(), 0, os.SEEK_SET)
            except OSError as err:
                raise Error(
                    "cannot seed block device '%s': %s "
                    % (self._dest_path, err.strerror)
                )

            if bdev_size < self.image_size:''', '''            bdev_size = self._bdev_size()
            if not self.image_size <= bdev_size:'''), (BC, '''    def copy(self, sync=True, verify=True):
        """
        The same as in the base class but tunes''', '''    def _bdev_size(self):
        fd = self._f_dest.fileno()
        try:
            size = os.lseek(fd, 0, os.SEEK_END)
            os.lseek(fd, 0, os.SEEK_SET)
        except OSError as err:
            raise Error(
                "cannot seed block device '%s': %s "
                % (self._dest_path, err.strerror)
            )
        return size

    def copy(self, sync=True, verify=True):
        """
        The same as in the base class but tunes'''))
same("capacity-seek", (BC, '''                bdev_size = os.lseek(self._f_dest.fileno(), 0, os.SEEK_END)
                os.lseek(self._f_dest.fileno(), 0, os.SEEK_SET)
''', '''                self._f_dest.seek(0, os.SEEK_END)
                bdev_size = self._f_dest.tell()
                self._f_dest.seek(0)
'''))

# ---------------------------------------------------------------- transparent reading

TR = "bmaptools/TransRead.py"
bug("tr-gz-no-d", "C21", (TR, '''            if is_gzip(self.name):
                args = "-d -c"''', '''            if is_gzip(self.name):
                args = "-c"'''))
bug("tr-bz2-gzip", "C21", (TR, '''                decompressor = "bzip2"
''', '''                decompressor = "gzip"
'''))
bug("tr-tarxz-z", "C21", (TR, 'args = "-x -J -O"', 'args = "-x -z -O"'))
bug("tr-tar-no-O", "C21", (TR, 'args = "-x -Izstd -O"', 'args = "-x -Izstd"'))
bug("tr-tgz-suffix", "C21", (TR, 'name.endswith(".tar.gz") or name.endswith(".tgz")', 'name.endswith(".tar.gz") or name.endswith(".taz")'))
bug("tr-targz-as-gz", "C21", (TR, ''' or (
                name.endswith(".gz") and not name.endswith(".tar.gz")
            ):''', ''' or name.endswith(".gz"):'''))
bug("tr-size-compressed", "C21", (TR, '''        else:
            if not self.is_url:
                self.size''', '''        else:
            pass
        if True:
            if not self.is_url:
                self.size'''), )
bug("tr-size-always", "C21", (TR, '''        self._open_compressed_file()

    def __del__''', '''        self._open_compressed_file()
        if not self.is_url:
            self.size = os.fstat(self._f_objs[0].fileno()).st_size

    def __del__'''))
bug("tr-url-no-feed", "C21 C23", (TR, '''            self._rthread.start()
''', '''            self._rthread = None
'''))
bug("tr-feed-chunk", "C21 C23", (TR, '''                if not buf:
                    break

                f_to.write(buf)''', '''                if len(buf) < chunk_size:
                    break

                f_to.write(buf)'''))
bug("tr-feed-noclose", "C23", (TR, '''        chunk_size = 1024 * 1024
        try:
            while not self._done:
                buf = f_from.read(chunk_size)
                if not buf:
                    break

                f_to.write(buf)
        finally:
            # This will make sure the process decompressor gets EOF and exits, as
            # well as ublocks processes waiting on decompressor's stdin.
            f_to.close()''', '''        chunk_size = 1024 * 1024
        while not self._done:
            buf = f_from.read(chunk_size)
            if not buf:
                break

            f_to.write(buf)
        f_to.close()'''))
bug("tr-avail-skip", "C22", (TR, '''        if not BmapHelpers.program_is_available(decompressor):''', '''        if not archiver and not BmapHelpers.program_is_available(decompressor):'''))
bug("tr-avail-tar", "C22", (TR, '''        if archiver and not BmapHelpers.program_is_available(archiver):''', '''        if archiver == "cpio" and not BmapHelpers.program_is_available(archiver):'''))
bug("tr-shell-name", "C22 C21", (TR, '''            args = decompressor + " " + args

''', '''            args = decompressor + " " + args

        if not self.is_url:
            args += " < " + self.name

'''))
bug("tr-shell-ssh", "C22", (TR, '''            popen_args + ["cat " + path], stdout=subprocess.PIPE
''', '''            " ".join(popen_args + ["cat " + path]), shell=True, stdout=subprocess.PIPE
'''))
bug("tr-ssh-avail", "C22", (TR, '''        if not BmapHelpers.program_is_available("ssh"):''', '''        if not password and not BmapHelpers.program_is_available("ssh"):'''))
EOFCHK = """        if (size < 0 or len(buf) < size) and (not buf or self._child_processes):
            self._check_source(self._f_objs[-1])
            if self._transfer_error:
                raise Error(
                    "the transfer of '%s' failed: %s" % (self.name, self._transfer_error)
                )
"""
bug("tr-status-ignored", "C23", (TR, EOFCHK, EOFCHK.replace("            self._check_source(self._f_objs[-1])\n", "")))
bug("tr-status-full", "C23", (TR, "        if (size < 0 or len(buf) < size) and", "        if len(buf) < size and"))
bug("tr-status-neg", "C23", (TR, "                if retcode != 0:\n", "                if retcode > 0:\n"))
bug("tr-status-poll", "C23", (TR, "                retcode = child.wait()\n                if retcode != 0:", "                retcode = child.poll()\n                if retcode:"))
bug("tr-status-other", "C23", (TR, "            if child.stdout is f_obj:", "            if child.stdout is not f_obj:"))
bug("tr-status-0", "C23", (TR, "        for child in self._child_processes:\n            if child.stdout is", "        for child in self._child_processes[:1]:\n            if child.stdout is"))
bug("tr-transfer-ignored", "C23", (TR, "            if self._transfer_error:\n", "            if self._transfer_error and not buf:\n"))
bug("tr-transfer-short", "C23", (TR, " and (not buf or self._child_processes):", " and not buf:"))
bug("tr-transfer-io", "C23", (TR, "                except Exception as err:\n                    # The decomp", "                except OSError as err:\n                    # The decomp"))
bug("tr-transfer-end", "C23", (TR, "                    if not buf:\n                        self._check_source(f_from)\n", ""))
bug("tr-transfer-late", "C23", (TR, "                    self._transfer_error = err\n                    break\n", "                    f_to.close()\n                    self._transfer_error = err\n                    break\n"))
bug("tr-transfer-length", "C23", (TR, "        if missing:\n", "        if missing and self._child_processes:\n"))
bug("tr-transfer-before", "C23", (TR, EOFCHK, EOFCHK.replace("            if self._transfer_error:", "            if failed:")), (TR, "        if size < 0:\n            buf = self._f_objs[-1].read()\n", "        failed = self._transfer_error\n        if size < 0:\n            buf = self._f_objs[-1].read()\n"))
same("tr-transfer-flag", (TR, "        self._transfer_error = None\n", "        self._transfer_failed = False\n"), (TR, "                    self._transfer_error = err\n", "                    _log.error(str(err))\n                    self._transfer_failed = True\n"),
     (TR, """            if self._transfer_error:
                raise Error(
                    "the transfer of '%s' failed: %s" % (self.name, self._transfer_error)
                )
""", """            if self._transfer_failed:
                raise Error("the transfer of '%s' failed" % self.name)
"""))
same("tr-transfer-helper", (TR, EOFCHK, """        if size < 0 or len(buf) < size:
            self._end_of_data(buf)
"""), (TR, "    def read(self, size=-1):", """    def _end_of_data(self, buf):
        if buf and not self._child_processes:
            return
        self._check_source(self._f_objs[-1])
        error = self._transfer_error
        if error is not None:
            raise Error("the transfer of '%s' failed: %s" % (self.name, error))

    def read(self, size=-1):"""))
same("tr-transfer-outer", (TR, """                try:
                    buf = f_from.read(chunk_size)
                    if not buf:
                        self._check_source(f_from)
                except Exception as err:
                    # The decompressor gets EOF and may well be happy with the
                    # data it has got so far, so 'read()' has to report this.
                    self._transfer_error = err
                    break

                if not buf:
                    break

                f_to.write(buf)
""", """                buf = f_from.read(chunk_size)
                if not buf:
                    self._check_source(f_from)
                    break
                f_to.write(buf)
        except Exception as err:
            self._transfer_error = err
"""))
bug("tr-seek-short", "C24", (TR, '''        to_read -= len(buf)
''', '''        to_read -= chunk_size
'''))
same("tr-seek-back", (TR, """    if new_pos < cur_pos:""", """    if whence == os.SEEK_CUR and new_pos < cur_pos:"""))
bug("tr-seek-back", "C24", (TR, """    if new_pos < cur_pos:""", """    if whence == os.SEEK_CUR and new_pos < cur_pos:"""), (TR, "    if to_read < 0:", "    if to_read < 0 and length > 0:"))
bug("tr-pos-size", "C24", (TR, '''        self._pos += len(buf)
''', '''        self._pos += size if size > 0 else len(buf)
'''))
bug("tr-seek-cur", "C24", (TR, '''        new_pos = cur_pos + offset
''', '''        new_pos = offset
'''))
bug("tr-seek-ret", "C24", (TR, '''    return new_pos - to_read
''', '''    return new_pos
'''))
bug("tr-seek-posreset", "C24", (TR, '''        self._pos += len(buf)
''', '''        if not self._fake_seek:
            self._pos += len(buf)
'''))
bug("tr-tell", "C24", (TR, '''        if self._fake_seek or not hasattr(self._f_objs[-1], "tell"):
            return self._pos''', '''        if self._fake_seek or not hasattr(self._f_objs[-1], "tell"):
            return self._f_objs[0].tell()'''))
bug("tr-close-nokill", "C25", (TR, '''                if child.poll() is None:
                    child.kill()
                    child.wait()''', '''                if child.poll() is None:
                    child.kill()'''))
bug("tr-close-files", "C25", (TR, '''            for file_obj in self._f_objs:
                file_obj.close()
''', '''            self._f_objs[-1].close()
'''))
bug("tr-close-notracked", "C25", (TR, '''        self._f_objs.append(child_process.stdout)
        self._child_processes.append(child_process)
''', '''        self._f_objs.append(child_process.stdout)
        if not self._child_processes:
            self._child_processes.append(child_process)
'''))
same("tr-status-helper", (TR, """                retcode = child.wait()
                if retcode != 0:
                    raise Error(
                        "cannot read '%s': the program which provides its contents "
                        "failed with exit status %d" % (self.name, retcode)
                    )
""", """                child.wait()
                if not child.returncode:
                    break
                raise Error(
                    "cannot read '%s': the program which provides its contents "
                    "failed with exit status %d" % (self.name, child.returncode)
                )
"""))
same("tr-list-args", (TR, '''        child_process = subprocess.Popen(
            args,
            shell=True,
            bufsize''', '''        child_process = subprocess.Popen(
            args.split(),
            bufsize'''))
same("tr-table", (TR, '''        archiver = None
        if is_tar_gz(self.name) or is_gzip(self.name):
            self.compression_type = "gzip"
            if BmapHelpers.program_is_available("pigz"):
                decompressor = "pigz"
            else:
                decompressor = "gzip"

            if is_gzip(self.name):
                args = "-d -c"
            else:
                archiver = "tar"
                args = "-x -z -O"
''', '''        archiver = None
        if is_tar_gz(self.name) or is_gzip(self.name):
            self.compression_type = "gzip"
            decompressor = next(
                (x for x in ("pigz", "gzip") if BmapHelpers.program_is_available(x)), "gzip"
            )
            archiver, args = {True: (None, "-d -c"), False: ("tar", "-x -z -O")}[
                is_gzip(self.name)
            ]
'''))
same("tr-endswith-tuple", (TR, '''            if (
                name.endswith(".tar.bz2")
                or name.endswith(".tbz")
                or name.endswith(".tbz2")
                or name.endswith(".tb2")
            ):
                return True
            return False''', '''            return name.endswith((".tar.bz2", ".tbz", ".tbz2", ".tb2"))'''))
same("tr-splitext", (TR, '''            if name.endswith(".xz") and not name.endswith(".tar.xz"):
                return True
            return False''', '''            base, ext = os.path.splitext(name)
            return ext == ".xz" and not base.endswith(".tar")'''))
same("tr-del", (TR, '''        if getattr(self, "_f_objs"):
            for file_obj in self._f_objs:
                file_obj.close()
            self._f_objs = None

        if getattr(self, "_rthread"):
            self._rthread.join()
            self._rthread = None

        if getattr(self, "_child_processes"):
            for child in self._child_processes:
                if child.poll() is None:
                    child.kill()
                    child.wait()
            self._child_processes = []''', '''        while self._f_objs:
            self._f_objs.pop().close()
        self._f_objs = None

        thread, self._rthread = self._rthread, None
        if thread is not None:
            thread.join()

        children, self._child_processes = self._child_processes, []
        for child in children:
            if child.poll() is not None:
                continue
            child.kill()
            child.wait()'''))
same("tr-seek-loop", (TR, '''    length = new_pos - cur_pos
    to_read = length
    while to_read > 0:
        chunk_size = min(to_read, 1024 * 1024)
        buf = file_obj.read(chunk_size)
        if not buf:
            break
        to_read -= len(buf)

    if to_read < 0:
        raise Error("seeked too far: %d instead of %d" % (new_pos - to_read, new_pos))

    return new_pos - to_read''', '''    pos = cur_pos
    while pos < new_pos:
        data = file_obj.read(min(new_pos - pos, 4096 * 16))
        pos += len(data)
        if len(data) == 0:
            break

    if pos > new_pos:
        raise Error("seeked too far: %d instead of %d" % (pos, new_pos))

    return pos'''))
same("tr-seek-args", (TR, '''            self._pos = _fake_seek_forward(self._f_objs[-1], self._pos, offset, whence)
        else:
            try:
                self._f_objs[-1].seek(offset, whence)
            except io.UnsupportedOperation:
                self._fake_seek = True
                self._pos = _fake_seek_forward(
                    self._f_objs[-1], self._pos, offset, whence
                )''', '''            self._seek_stream(offset, whence)
        else:
            try:
                self._f_objs[-1].seek(offset, whence)
            except io.UnsupportedOperation:
                self._fake_seek = True
                self._seek_stream(offset, whence)

    def _seek_stream(self, offset, whence):
        src = self._f_objs[-1]
        self._pos = _fake_seek_forward(src, self._pos, offset, whence=whence)'''))
same("tr-read-one", (TR, """        if size < 0:
            buf = self._f_objs[-1].read()
        else:
            buf = self._f_objs[-1].read(size)
        self._pos += len(buf)

""" + EOFCHK + """
        return buf""", """        source = self._f_objs[-1]
        data = source.read(size) if size >= 0 else source.read()
        got = len(data)
        self._pos = self._pos + got
        if got >= size and size >= 0:
            return data
        if got and not self._child_processes:
            return data
        self._check_source(source)
        if self._transfer_error is None:
            return data
        raise Error("the transfer of '%s' failed: %s" % (self.name, self._transfer_error))"""))
same("tr-feed", (TR, """        try:
            while not self._done:
                try:
                    buf = f_from.read(chunk_size)
                    if not buf:
                        self._check_source(f_from)
                except Exception as err:
                    # The decompressor gets EOF and may well be happy with the
                    # data it has got so far, so 'read()' has to report this.
                    self._transfer_error = err
                    break

                if not buf:
                    break

                f_to.write(buf)
        finally:
            # This will make sure the process decompressor gets EOF and exits, as
            # well as ublocks processes waiting on decompressor's stdin.
            f_to.close()""", """        with f_to:
            buf = self._next(f_from)
            while buf and not self._done:
                f_to.write(buf)
                buf = self._next(f_from)

    def _next(self, f_from):
        try:
            data = f_from.read(1 << 20)
            if not data:
                self._check_source(f_from)
            return data
        except Exception as err:
            self._transfer_error = err
        return b''"""))
same("tr-spawn-helper", (TR, '''        child_process = subprocess.Popen(
            args,
            shell=True,
            bufsize=1024 * 1024,
            stdin=child_stdin,
            stdout=subprocess.PIPE,
        )

        if child_stdin == subprocess.PIPE:
            # A separate reader thread is created only when we are reading via
            # urllib2.
            args = (
                self._f_objs[-1],
                child_process.stdin,
            )
            self._rthread = threading.Thread(target=self._read_thread, args=args)
            self._rthread.daemon = True
            self._rthread.start()
''', '''        child_process = self._run(args, child_stdin)

        if child_stdin == subprocess.PIPE:
            self._rthread = threading.Thread(
                target=self._read_thread,
                kwargs={"f_to": child_process.stdin, "f_from": self._f_objs[-1]},
                daemon=True,
            )
            self._rthread.start()
'''), (TR, '''    def _open_url_ssh(self, parsed_url):''', '''    def _run(self, command, child_stdin):
        opts = dict(shell=True, bufsize=1 << 20, stdout=subprocess.PIPE)
        return subprocess.Popen(command, stdin=child_stdin, **opts)

    def _open_url_ssh(self, parsed_url):'''))
same("tr-ssh-args", (TR, '''        child_process = subprocess.Popen(popen_args + ["true"])
        child_process.wait()
        retcode = child_process.returncode
        if retcode != 0:''', '''        retcode = subprocess.call(popen_args + ["true"])
        if retcode:'''))
same("tr-url-break", (TR, '''                f_obj = opener.open(url, timeout=timeout)
''', '''                f_obj = opener.open(url, timeout=timeout)
                break
'''))

# ---------------------------------------------------------------- the command line tool

CL = "bmaptools/CLI.py"
bug("cli-verify-inverted", "C01", (CL, "writer.copy(False, not args.no_verify)", "writer.copy(False, args.no_verify)"))
bug("cli-verify-quiet", "C01", (CL, "writer.copy(False, not args.no_verify)", "writer.copy(False, not (args.no_verify or args.quiet))"))
bug("cli-verify-sig", "C01", (CL, "writer.copy(False, not args.no_verify)", "writer.copy(False, not (args.no_verify or args.no_sig_verify))"))
bug("cli-noverify-default", "C01", (CL, 'parser_copy.add_argument("--no-verify", action="store_true", help=text)', 'parser_copy.add_argument("--no-verify", action="store_true", default=True, help=text)'))
bug("cli-nosync", "C06", (CL, '''        try:
            writer.sync()
        except BmapCopy.Error as err:
            error_out(err)
''', '''        if dest_is_blkdev:
            try:
                writer.sync()
            except BmapCopy.Error as err:
                error_out(err)
'''))
bug("cli-sync-swallow", "C06", (CL, '''            writer.sync()
        except BmapCopy.Error as err:
            error_out(err)
''', '''            writer.sync()
        except BmapCopy.Error as err:
            log.error(err)
'''))
bug("cli-copy-swallow", "C14", (CL, '''        except (BmapCopy.Error, TransRead.Error) as err:
            error_out(err)
''', '''        except (BmapCopy.Error, TransRead.Error) as err:
            log.error(err)
            return
'''))
bug("cli-copy-swallow2", "C14", (CL, '''        except (BmapCopy.Error, TransRead.Error) as err:
            error_out(err)
''', '''        except BmapCopy.Error as err:
            error_out(err)
        except TransRead.Error as err:
            log.error(err)
'''))
bug("cli-interrupt", "C14", (CL, '''        error_out("interrupted, exiting")''', '''        log.error("interrupted, exiting")
        raise SystemExit(0)'''))
bug("cli-exit0", "C14", (CL, '''    raise SystemExit(1)''', '''    raise SystemExit'''))
bug("cli-mem0", "C14", (CL, '''        return 1


if __name__''', '''        return 0


if __name__'''))
bug("cli-main-noexit", "C14", ("bmaptools/__main__.py", "sys.exit(main())", "main()"))
bug("cli-main-noexit2", "C14", ("bmaptools/__main__.py", "sys.exit(main())", "main()\n    sys.exit(0)"))
bug("cli-sig-unknown", "C12", (CL, "        if (sig.summary & gpg.constants.SIGSUM_VALID) != 0:", "        if (sig.summary & gpg.constants.SIGSUM_RED) == 0:"))
bug("cli-sig-green", "C12", (CL, "        if (sig.summary & gpg.constants.SIGSUM_VALID) != 0:", "        if (sig.summary & (gpg.constants.SIGSUM_VALID | gpg.constants.SIGSUM_GREEN)) != 0:"))
bug("cli-sig-first", "C12", (CL, '''                "(fingerprint %s)" % (author, sig.fpr)
            )
''', '''                "(fingerprint %s)" % (author, sig.fpr)
            )
            return
'''))
bug("cli-sig-first2", "C12", (CL, "    for sig in sigs:\n", "    for sig in sigs[:1]:\n"))
bug("cli-sig-bad-warn", "C12", (CL, '''    except gpg.errors.BadSignatures as err:
        error_out("discovered a BAD GPG signature: %s\\n", sig_path)
''', '''    except gpg.errors.BadSignatures as err:
        log.error("discovered a BAD GPG signature: %s\\n", sig_path)
        return None
'''))
bug("cli-sig-gpgme", "C12", (CL, '''    except gpg.errors.GPGMEError as err:
        error_out(
            "failure when trying to verify GPG signature: %s\\n"
            'Make sure file''', '''    except gpg.errors.GPGMEError as err:
        return log.error(
            "failure when trying to verify GPG signature: %s\\n"
            'Make sure file'''))
bug("cli-sig-nogpg", "C12", (CL, '''    except ImportError:
        error_out(
            'cannot verify the signature because the python "gpg" '
            "module is not installed on your system\\nPlease, either "
            "install the module or use --no-sig-verify"
        )
''', '''    except ImportError:
        log.warning(
            'cannot verify the signature because the python "gpg" '
            "module is not installed on your system\\nPlease, either "
            "install the module or use --no-sig-verify"
        )
        return None
'''))
bug("cli-sig-wrongfile", "C12", (CL, "        signed_data = io.FileIO(bmap_obj.name)", "        signed_data = io.FileIO(args.image)"))
bug("cli-sig-nosig", "C12", (CL, '''                sig_path = bmap_path + ".sig"
                sig_obj = TransRead.TransRead(sig_path)
            except TransRead.Error:
                # No signatures found
                return None''', '''                # No signatures found
                return None
            except KeyError:
                return None'''))
bug("cli-sig-imagebase", "C12", (CL, '''            sig_path = bmap_path + ".asc"''', '''            sig_path = args.image + ".asc"'''))
bug("cli-sig-openfail", "C12", (CL, '''        except TransRead.Error as err:
            error_out("cannot open bmap signature file '%s':\\n%s", args.bmap_sig, err)
''', '''        except TransRead.Error as err:
            log.error("cannot open bmap signature file '%s':\\n%s", args.bmap_sig, err)
            return None
'''))
bug("cli-clear-raw", "C12", (CL, '''    f_obj = verify_bmap_signature(args, bmap_obj, bmap_path)
    if f_obj:''', '''    f_obj = verify_bmap_signature(args, bmap_obj, bmap_path)
    if f_obj and not args.no_sig_verify:'''))
bug("cli-clear-skip", "C12", (CL, '''    if not args.no_sig_verify:
        if len(sigs) == 0:''', '''    if not (args.no_sig_verify or args.bmap):
        if len(sigs) == 0:'''))
bug("cli-sig-count", "C12", (CL, '''    sig_obj.close()

    if len(sigs) == 0:''', '''    sig_obj.close()

    if len(sigs) != 1:'''))
bug("cli-nobmap-skip", "C13", (CL, '''        else:
            error_out(
                "bmap file not found, please''', '''        else:
            log.warning(
                "bmap file not found, please'''))
bug("cli-nobmap-both", "C13", (CL, '''    if args.nobmap and args.bmap:
        error_out("--nobmap and --bmap cannot be used together")
''', ''))
bug("cli-sig-both", "C13", (CL, '''    if args.bmap_sig and args.no_sig_verify:
        error_out(''', '''    if args.bmap_sig and args.no_sig_verify:
        log.warning('''))
bug("cli-sig-nobmapfile", "C13", (CL, '''    if args.bmap_sig and not bmap_obj:''', '''    if args.bmap_sig and not bmap_obj and not args.nobmap:'''))
bug("cli-same-path", "C13", (CL, '''    if bmap_path == args.image:''', '''    if bmap_path == args.image and not args.quiet:'''))
bug("cli-nobmap-ignored", "C13", (CL, '''    if args.nobmap:
        return (None, None)
''', '''    if args.nobmap and not os.path.exists(args.image + ".bmap"):
        return (None, None)
'''))
bug("cli-quietdebug", "C13", (CL, '''        error_out("--quiet and --debug cannot be used together")''', '''        log.warning("--quiet and --debug cannot be used together")'''))
bug("cli-excl", "C15", (CL, "os.O_WRONLY | os.O_EXCL", "os.O_WRONLY"))
bug("cli-excl-creat", "C15", (CL, "os.O_WRONLY | os.O_EXCL", "os.O_RDWR | os.O_CREAT | os.O_EXCL"))
bug("cli-blk-dev-only", "C15", (CL, '''    dest_is_blkdev = stat.S_ISBLK(os.fstat(dest_obj.fileno()).st_mode)
    if dest_is_blkdev:''', '''    dest_is_blkdev = stat.S_ISBLK(os.fstat(dest_obj.fileno()).st_mode)
    if dest_is_blkdev and not args.nobmap:'''))
bug("cli-blk-plainclass", "C15", (CL, '''        if dest_is_blkdev:
            dest_str''', '''        if dest_is_blkdev and bmap_obj:
            dest_str'''))
bug("cli-blk-fallback", "C15", (CL, '''    except OSError as err:
        error_out("cannot open block device '%s' in exclusive mode: %s", path, err)
''', '''    except OSError as err:
        log.warning("cannot open block device '%s' in exclusive mode: %s", path, err)
        descriptor = os.open(path, os.O_WRONLY)
'''))
bug("cli-blk-reopen", "C15", (CL, '''        dest_obj = open_block_device(args.dest)
''', '''        dest_obj = open_block_device(args.dest)
        if args.dest.startswith("/dev/loop"):
            dest_obj = open(args.dest, "wb+")
'''))
bug("cli-remote-direct", "C31", (CL, '''    if not bmap_obj.is_url:
        return''', '''    if not bmap_obj.is_url or args.no_sig_verify:
        return'''))
bug("cli-remote-noflush", "C31", (CL, '''    tmp_obj.flush()
    tmp_obj.seek(0)
    bmap_obj.close()
''', '''    bmap_obj.close()
'''))
bug("cli-head-noseek", "C31", (CL, '''    buf = bmap_obj.read(len(clearsign_marker))
    bmap_obj.seek(0)
''', '''    buf = bmap_obj.read(len(clearsign_marker))
    if buf == clearsign_marker:
        bmap_obj.seek(0)
'''))
bug("cli-plain-noseek", "C31", (CL, '''    tmp_obj.write(plaintext)
    tmp_obj.flush()
    tmp_obj.seek(0)
''', '''    tmp_obj.write(plaintext)
    tmp_obj.flush()
'''))
bug("cli-create-checksums", "C33", (CL, "creator.generate(not args.no_checksum)", "creator.generate(not args.no_checksum and bool(args.output))"))
bug("cli-create-noseek", "C33", (CL, '''        output.seek(0)
        sys.stdout''', '''        output.flush()
        sys.stdout'''))
bug("cli-create-swallow", "C14", (CL, '''        creator.generate(not args.no_checksum)
    except BmapCreate.Error as err:
        error_out(err)
''', '''        creator.generate(not args.no_checksum)
    except BmapCreate.Error as err:
        log.error(err)
        return
'''))
bug("cli-create-append", "C33", (CL, '''open(args.output, "w+")''', '''open(args.output, "a+")'''))
bug("cli-create-part", "C33", (CL, "sys.stdout.write(output.read())", "sys.stdout.write(output.read(1 << 20))"))

same("cli-gates-table", (CL, '''    if args.nobmap and args.bmap:
        error_out("--nobmap and --bmap cannot be used together")

    if args.bmap_sig and args.no_sig_verify:
        error_out("--bmap-sig and --no-sig-verify cannot be used together")
''', '''    for one, two in (("nobmap", "bmap"), ("bmap_sig", "no_sig_verify")):
        if getattr(args, one) and getattr(args, two):
            error_out(
                "--%s and --%s cannot be used together"
                % (one.replace("_", "-"), two.replace("_", "-"))
            )
'''))
same("cli-consent-early", (CL, '''    if args.bmap_sig and not bmap_obj:''', '''    if not (bmap_obj or args.nobmap):
        error_out(
            "bmap file not found, please, use --nobmap option to "
            "flash without bmap"
        )

    if args.bmap_sig and not bmap_obj:'''))
same("cli-all-valid", (CL, '''    for sig in sigs:
        if (sig.summary & gpg.constants.SIGSUM_VALID) != 0:
            key''', '''    for sig in sigs:
        valid = bool(sig.summary & gpg.constants.SIGSUM_VALID)
        if valid:
            key'''))
same("cli-bad-list", (CL, '''    for sig in sigs:
        if (sig.summary & gpg.constants.SIGSUM_VALID) != 0:
            key = context.get_key(sig.fpr)
            author = "%s <%s>" % (key.uids[0].name, key.uids[0].email)
            log.info(
                "successfully verified bmap file signature of %s "
                "(fingerprint %s)" % (author, sig.fpr)
            )
        else:
            error_out(
                "signature verification failed (fingerprint %s): %s\\n"
                "Either fix the problem or use --no-sig-verify to "
                "disable signature verification",
                sig.fpr,
                sig.status[2].lower(),
            )
''', '''    mask = gpg.constants.SIGSUM_VALID
    bad = [sig for sig in sigs if sig.summary & mask != mask]
    if bad:
        error_out(
            "signature verification failed (fingerprint %s): %s\\n"
            "Either fix the problem or use --no-sig-verify to "
            "disable signature verification",
            bad[0].fpr,
            bad[0].status[2].lower(),
        )
    for sig in sigs:
        key = context.get_key(sig.fpr)
        author = "%s <%s>" % (key.uids[0].name, key.uids[0].email)
        log.info(
            "successfully verified bmap file signature of %s "
            "(fingerprint %s)" % (author, sig.fpr)
        )
'''))
same("cli-sig-helper", (CL, '''        # Check if there is a stand-alone signature file
        try:
            sig_path = bmap_path + ".asc"
            sig_obj = TransRead.TransRead(sig_path)
        except TransRead.Error:
            try:
                sig_path = bmap_path + ".sig"
                sig_obj = TransRead.TransRead(sig_path)
            except TransRead.Error:
                # No signatures found
                return None
''', '''        # Check if there is a stand-alone signature file
        sig_obj = None
        for ext in (".asc", ".sig"):
            sig_path = "%s%s" % (bmap_path, ext)
            try:
                sig_obj = TransRead.TransRead(sig_path)
                break
            except TransRead.Error:
                continue
        if sig_obj is None:
            # No signatures found
            return None
'''))
same("cli-verify-names", (CL, '''        signature = io.FileIO(sig_obj.name)
        signed_data = io.FileIO(bmap_obj.name)
        sigs = context.verify(signed_data, signature, None)[1].signatures''', '''        with io.FileIO(sig_obj.name) as signature, open(bmap_obj.name, "rb") as data:
            _, result = context.verify(data, signature=signature)
        sigs = result.signatures'''))
same("cli-local-copy", (CL, '''    # If the stand-alone signature file is not local, make a local copy
    if sig_obj.is_url:
        try:
            tmp_obj = tempfile.NamedTemporaryFile("wb+")
        except IOError as err:
            error_out("cannot create a temporary file for the signature:\\n%s", err)

        shutil.copyfileobj(sig_obj, tmp_obj)
        tmp_obj.seek(0)
        sig_obj.close()
        sig_obj = tmp_obj
''', '''    # If the stand-alone signature file is not local, make a local copy
    if sig_obj.is_url:
        sig_obj = make_local_copy(sig_obj, "the signature")
'''), (CL, '''    try:
        # Create a temporary file for the bmap
        tmp_obj = tempfile.NamedTemporaryFile("wb+")
    except IOError as err:
        error_out("cannot create a temporary file for bmap:\\n%s", err)

    shutil.copyfileobj(bmap_obj, tmp_obj)

    tmp_obj.flush()
    tmp_obj.seek(0)
    bmap_obj.close()
    return (tmp_obj, bmap_path)
''', '''    return (make_local_copy(bmap_obj, "bmap"), bmap_path)
'''), (CL, '''def report_verification_results(''', '''def make_local_copy(file_obj, what):
    """Copy a remote file to a temporary one."""

    try:
        tmp_obj = tempfile.NamedTemporaryFile("wb+")
    except IOError as err:
        error_out("cannot create a temporary file for %s:\\n%s", what, err)

    shutil.copyfileobj(file_obj, tmp_obj)
    tmp_obj.flush()
    tmp_obj.seek(0)
    file_obj.close()
    return tmp_obj


def report_verification_results('''))
same("cli-copy-loop", (CL, '''    shutil.copyfileobj(bmap_obj, tmp_obj)

    tmp_obj.flush()
''', '''    while True:
        data = bmap_obj.read(65536)
        if not data:
            break
        tmp_obj.write(data)
'''))
same("cli-startswith", (CL, '''    buf = bmap_obj.read(len(clearsign_marker))
    bmap_obj.seek(0)

    if buf == clearsign_marker:
        return''', '''    head = bmap_obj.read(64)
    bmap_obj.seek(0)

    if head.startswith(clearsign_marker):
        return'''))
same("cli-discover", (CL, '''        image_path = args.image
        while True:
            bmap_path = image_path + ".bmap"
            try:
                bmap_obj = TransRead.TransRead(bmap_path)
                log.info("discovered bmap file '%s'" % bmap_path)
                break
            except TransRead.Error:
                pass

            image_path, ext = os.path.splitext(image_path)
            if ext == "":
                return (None, None)
''', '''        bmap_obj = None
        image_path, ext = args.image, None
        while bmap_obj is None and ext != "":
            bmap_path = image_path + ".bmap"
            try:
                bmap_obj = TransRead.TransRead(bmap_path)
            except TransRead.Error:
                image_path, ext = os.path.splitext(image_path)
        if bmap_obj is None:
            return (None, None)
        log.info("discovered bmap file '%s'" % bmap_path)
'''))
same("cli-blk-helper", (CL, '''    try:
        if dest_is_blkdev:
            dest_str = "block device '%s'" % args.dest
            # For block devices, use the specialized class
            writer = BmapCopy.BmapBdevCopy(image_obj, dest_obj, bmap_obj, image_size)
        else:
            dest_str = "file '%s'" % os.path.basename(args.dest)
            writer = BmapCopy.BmapCopy(image_obj, dest_obj, bmap_obj, image_size)
    except''', '''    if dest_is_blkdev:
        dest_str, writer_cls = "block device '%s'" % args.dest, BmapCopy.BmapBdevCopy
    else:
        dest_str = "file '%s'" % os.path.basename(args.dest)
        writer_cls = BmapCopy.BmapCopy
    try:
        writer = writer_cls(image_obj, dest_obj, bmap=bmap_obj, image_size=image_size)
    except'''))
same("cli-copy-sync", (CL, '''            writer.copy(False, not args.no_verify)
        except (BmapCopy.Error, TransRead.Error) as err:
            error_out(err)

        # Synchronize the block device
        log.info("synchronizing '%s'" % args.dest)
        try:
            writer.sync()
        except BmapCopy.Error as err:
            error_out(err)
''', '''            verify = not args.no_verify
            writer.copy(sync=True, verify=verify)
        except (BmapCopy.Error, TransRead.Error) as err:
            error_out(err)
'''))
same("cli-blk-stat", (CL, "dest_is_blkdev = stat.S_ISBLK(os.fstat(dest_obj.fileno()).st_mode)", "mode = os.stat(args.dest).st_mode\n    dest_is_blkdev = stat.S_ISBLK(mode)"))
same("cli-options-loop", (CL, '''    # The --no-sig-verify option
    text = "do not verify bmap file GPG signatrue"
    parser_copy.add_argument("--no-sig-verify", action="store_true", help=text)

    # The --no-verify option
    text = "do not verify the data checksum while writing"
    parser_copy.add_argument("--no-verify", action="store_true", help=text)
''', '''    for option, text in (
        ("--no-sig-verify", "do not verify bmap file GPG signatrue"),
        ("--no-verify", "do not verify the data checksum while writing"),
    ):
        parser_copy.add_argument(option, action="store_true", help=text)
'''))
same("cli-create-with", (CL, '''        output.seek(0)
        sys.stdout.write(output.read())
''', '''        output.flush()
        output.seek(0, os.SEEK_SET)
        text = output.read()
        sys.stdout.write(text)
'''))
same("cli-namedfile-helper", (CL, '''    if bmap_obj:
        bmap_obj = NamedFile(bmap_obj, bmap_path)

    try:
        if dest''', '''    bmap_obj = NamedFile(bmap_obj, bmap_path) if bmap_obj else None

    try:
        if dest'''))
same("cli-error-tuple", (CL, '''    print_error_with_tb(str(msgformat) + "\\n", *args)
    raise SystemExit(1)''', '''    print_error_with_tb(str(msgformat) + "\\n", *args)
    sys.exit(1)'''))
same("cli-command-dispatch", (CL, '''    try:
        args.func(args)
    except MemoryError:''', '''    command = args.func
    try:
        command(args)
    except MemoryError:'''))
same("cli-bighead", (CL, '''    buf = bmap_obj.read(len(clearsign_marker))
    bmap_obj.seek(0)

    if buf == clearsign_marker:
        return''', '''    head = bmap_obj.read(4096)
    bmap_obj.seek(0)

    if head[:len(clearsign_marker)] == clearsign_marker:
        return'''))
same("cli-copy-4k", (CL, '''    shutil.copyfileobj(bmap_obj, tmp_obj)
''', '''    while True:
        data = bmap_obj.read(4096)
        if not data:
            break
        tmp_obj.write(data)
'''))
bug("bdev-exact-fit", "C08", (BC, "            if bdev_size < self.image_size:", "            if bdev_size <= self.image_size:"))

FM = "bmaptools/Filemap.py"
HP = "bmaptools/BmapHelpers.py"
bug("fm-first-noclamp", "C19", (FM, "first = max(extent_block, block)", "first = extent_block"))
bug("fm-last-noclamp", "C19", (FM, "last = min(extent_block + extent_count, start + count) - 1", "last = extent_block + extent_count - 1"))
bug("fm-last-plus", "C19", (FM, "last = min(extent_block + extent_count, start + count) - 1", "last = min(extent_block + extent_count, start + count - 1)"))
bug("fm-beyond", "C19", (FM, "if extent_block > start + count - 1:", "if extent_block > start + count:"))
bug("fm-beyond-early", "C19", (FM, "if extent_block > start + count - 1:", "if extent_block >= start + count - 1:"))
bug("fm-next-block", "C19", (FM, "            block = extent_block + extent_count\n", "            block = extent_block + extent_count + 1\n"))
bug("fm-next-none", "C19", (FM, "            block = extent_block + extent_count\n", "            block = start + count\n"))
bug("fm-merge-gap", "C19", (FM, "if last_prev == first - 1:", "if last_prev >= first - 2:"))
bug("fm-merge-first", "C19", (FM, "                first_prev, last_prev = first, last", "                last_prev = last"))
bug("fm-merge-drop-last", "C19", (FM, """        _log.debug("FilemapFiemap: yielding range (%d, %d)" % (first_prev, last_prev))
        yield (first_prev, last_prev)

    def""", """        if last_prev > first_prev:
            yield (first_prev, last_prev)

    def"""))
bug("fm-hole-first", "C19", (FM, "            hole_first = last + 1", "            hole_first = last"))
bug("fm-hole-tail", "C19", (FM, "        if hole_first < start + count:", "        if hole_first < start + count - 1:"))
bug("fm-hole-zero", "C19", (FM, "        hole_first = start\n", "        hole_first = 0\n"))
bug("fm-request-short", "C19", (FM, "            count * self.block_size,\n            _FIEMAP_FLAG", "            (count - 1) * self.block_size,\n            _FIEMAP_FLAG"))
bug("fm-request-bytes", "C19", (FM, "            count * self.block_size,\n            _FIEMAP_FLAG", "            count,\n            _FIEMAP_FLAG"))
bug("fm-nosync-flag", "C18", (FM, "            _FIEMAP_FLAG_SYNC,\n", "            0,\n"))
bug("fm-room", "C19", (FM, "self._fiemap_extent_cnt = self._buf_size // _FIEMAP_EXTENT_SIZE", "self._fiemap_extent_cnt = self._buf_size // _FIEMAP_EXTENT_SIZE + 1"),
    (FM, "        self._buf_size = self._fiemap_extent_cnt * _FIEMAP_EXTENT_SIZE\n", "        self._buf_size = (self._fiemap_extent_cnt - 1) * _FIEMAP_EXTENT_SIZE\n"))
bug("fm-enotty", "C20", (FM, "if err.errno == errno.ENOTTY:", "if err.errno == errno.ENOSYS:"))
bug("fm-all-notsupp", "C20", (FM, """            raise Error(
                "the FIEMAP ioctl failed for""", """            raise ErrorNotSupp(
                "the FIEMAP ioctl failed for"""))
bug("fm-physical", "C19", (FM, "extent_start = fiemap_extent[0]", "extent_start = fiemap_extent[1]"))
bug("fm-extent-index", "C19", (FM, "_FIEMAP_SIZE + _FIEMAP_EXTENT_SIZE * index", "_FIEMAP_SIZE + _FIEMAP_EXTENT_SIZE * (index + 1)"))
bug("fm-extent-format", "C19", (FM, '_FIEMAP_EXTENT_FORMAT = "=QQQQQLLLL"', '_FIEMAP_EXTENT_FORMAT = "=QQQQLLLL"'))
bug("fm-ioctl-nomut", "C19", (FM, "_FIEMAP_IOCTL, self._buf, 1)", "_FIEMAP_IOCTL, self._buf, 0)"))
bug("fm-block-neg", "C19", (FM, "result = bool(struct_fiemap[3])", "result = bool(struct_fiemap[4])"))
bug("fm-block-count", "C19", (FM, "struct_fiemap = self._invoke_fiemap(block, 1)", "struct_fiemap = self._invoke_fiemap(block, 2)"))
bug("fm-skip-extent", "C19", (FM, "                extent += 1\n", "                extent += 2\n"))
bug("fm-no-fsync", "C18", (FM, """            os.fsync(self._f_image.fileno()),
""", """            pass
"""))
bug("fm-no-flush", "C18", (FM, """            self._f_image.flush()
""", """            pass
"""))
bug("fm-fsync-ignored", "C18", (FM, """            raise Error(
                "cannot synchronize image file '%s': %s "
                % (self._image_path, err.strerror)
            )
""", """            _log.debug(err.strerror)
"""))
bug("fm-fs-fiemap-only", "C18", (FM, "if not BmapHelpers.is_compatible_file_system(self._image_path):", "if isinstance(self, FilemapFiemap) and not BmapHelpers.is_compatible_file_system(self._image_path):"))
bug("fm-fs-ignored", "C18", (FM, """            raise Error(
                "image file on incompatible file system '%s': '%s': see docs for fix"
                % (self._image_path, fstype)
            )""", """            _log.debug(
                "image file on incompatible file system '%s': '%s': see docs for fix"
                % (self._image_path, fstype)
            )"""))
bug("fm-blocks-floor", "C19", (FM, "self.blocks_cnt = (self.image_size + self.block_size - 1) // self.block_size", "self.blocks_cnt = max(1, self.image_size // self.block_size)"))
bug("seek-nolimit", "C19", (FM, """            if end > limit:
                end = limit
""", ""))
bug("seek-limit-start", "C19", (FM, "start >= limit or start == self.image_size", "start > limit or start == self.image_size"))
bug("seek-noceil", "C19", (FM, "            if whence1 == _SEEK_DATA:\n                end = (end + self.block_size - 1)", "            if False:\n                end = (end + self.block_size - 1)"))
bug("seek-hole-floor", "C19", (FM, "start_blk = (start + self.block_size - 1) // self.block_size", "start_blk = start // self.block_size"))
bug("seek-einval", "C20", (FM, "        elif err.errno == errno.EINVAL:", "        elif err.errno == errno.ENOSYS:"))
bug("seek-all-none", "C20", (FM, "        if err.errno == errno.ENXIO:\n            return -1", "        if err.errno in (errno.ENXIO, errno.EIO) or err.errno > 0:\n            return -1"))
bug("seek-probe-none", "C20", (FM, "        self._probe_seek_hole()\n", ""))
bug("seek-probe-data", "C20", (FM, "        if offs != 0:\n", "        if offs < 0:\n"))
bug("seek-probe-empty", "C20", (FM, "os.ftruncate(tmp_obj.fileno(), self.block_size)", "os.ftruncate(tmp_obj.fileno(), 0)"))
bug("seek-block", "C19", (FM, "result = offs // self.block_size == block", "result = offs == block * self.block_size"))
bug("seek-unmapped-swap", "C19", (FM, "return self._get_ranges(start, count, _SEEK_HOLE, _SEEK_DATA)", "return self._get_ranges(start, count, _SEEK_DATA, _SEEK_HOLE)"))
bug("factory-any", "C20", (FM, "    except ErrorNotSupp:\n        return FilemapSeek", "    except (Error, ErrorNotSupp):\n        return FilemapSeek"))
bug("factory-seek-first", "C20", (FM, """        return FilemapFiemap(image)
    except ErrorNotSupp:
        return FilemapSeek(image)""", """        return FilemapSeek(image)
    except ErrorNotSupp:
        return FilemapFiemap(image)"""))
bug("fs-abspath", "C18", (HP, "abspath = os.path.realpath(path)", "abspath = os.path.abspath(path)"))
bug("fs-zfs-param-missing", "C18", (HP, "    if not os.path.isfile(path):\n        return False", "    if not os.path.isfile(path):\n        return True"))
bug("fs-zfs-nonzero", "C18", (HP, "return int(fobj.readline()) == 1", "return int(fobj.readline()) == 0"))
bug("fs-zfs-in", "C18", (HP, '    if fstype == "zfs":', '    if "zfs" in path:'))
bug("fs-unknown-ok", "C18", (HP, """    if not ftype:
        raise Error(""", """    if not ftype:
        return "unknown"
        raise Error("""))
bug("fs-garbage", "C18", (HP, """    except ValueError as err:
        raise Error("invalid value read from param path '%s': %s" % (path, err))""", """    except ValueError:
        return True"""))
bug("bs-zero", "C18", (HP, """        if not bsize:
            raise IOError("get 0 bsize by FIGETBSZ ioctl")
""", ""))
same("fm-last-plus-one", (FM, "            block = extent_block + extent_count\n", "            block = last + 1\n"))
same("fm-extents-for", (FM, """            extent = 0
            while extent < mapped_extents:
""", """            for extent in range(mapped_extents):
"""), (FM, """                yield (first, last)

                extent += 1
""", """                yield (first, last)
"""))
same("fm-merge-ge", (FM, "if last_prev == first - 1:", "if first <= last_prev + 1:"))
same("fm-unpack-from", (FM, """        return struct.unpack(
            _FIEMAP_EXTENT_FORMAT, self._buf[offset : offset + _FIEMAP_EXTENT_SIZE]
        )""", """        return struct.unpack_from(_FIEMAP_EXTENT_FORMAT, self._buf, offset)"""))
same("fm-end-variable", (FM, """        block = start
        while block < start + count:
            struct_fiemap""", """        block = start
        end = start + count
        while True:
            if block >= end:
                break
            struct_fiemap"""), (FM, "if extent_block > start + count - 1:", "if extent_block >= end:"), (FM, "last = min(extent_block + extent_count, start + count) - 1", "last = min(extent_block + extent_count, end) - 1"))
same("fm-merge-none", (FM, """        try:
            first_prev, last_prev = next(iterator)
        except StopIteration:
            return

        for first, last in iterator:
            if last_prev == first - 1:
                last_prev = last
            else:
""", """        first_prev, last_prev = None, None
        for first, last in iterator:
            if first_prev is None:
                first_prev, last_prev = first, last
            elif last_prev == first - 1:
                last_prev = last
            else:
"""), (FM, """        _log.debug("FilemapFiemap: yielding range (%d, %d)" % (first_prev, last_prev))
        yield (first_prev, last_prev)

    def""", """        if first_prev is not None:
            yield (first_prev, last_prev)

    def"""))
same("fm-split-extent", (FM, """                # Start of the extent
                extent_start = fiemap_extent[0]
                # Starting block number of the extent
                extent_block = extent_start // self.block_size
                # Length of the extent
                extent_len = fiemap_extent[2]
                # Count of blocks in the extent
                extent_count = extent_len // self.block_size

                # Extent length and offset have to be block-aligned
                assert extent_start % self.block_size == 0
                assert extent_len % self.block_size == 0
""", """                extent_start, _, extent_len = fiemap_extent[:3]
                # Extent length and offset have to be block-aligned
                extent_block, rest = divmod(extent_start, self.block_size)
                assert not rest
                extent_count, rest = divmod(extent_len, self.block_size)
                assert not rest
"""))
same("fm-errno-tuple", (FM, """            if err.errno == errno.EOPNOTSUPP:
                errstr = (
                    "FilemapFiemap: the FIEMAP ioctl is not supported "
                    "by the file-system"
                )
                _log.debug(errstr)
                raise ErrorNotSupp(errstr)
            if err.errno == errno.ENOTTY:
                errstr = (
                    "FilemapFiemap: the FIEMAP ioctl is not supported " "by the kernel"
                )
""", """            if err.errno in (errno.EOPNOTSUPP, errno.ENOTTY):
                errstr = "FilemapFiemap: the FIEMAP ioctl is not supported"
"""))
same("fm-unmapped-gen", (FM, """            if first > hole_first:
                _log.debug(
                    "FilemapFiemap: yielding range (%d, %d)" % (hole_first, first - 1)
                )
                yield (hole_first, first - 1)

            hole_first = last + 1
""", """            hole_last = first - 1
            if hole_last >= hole_first:
                yield hole_first, hole_last
            hole_first = last + 1
"""))
same("fm-unmapped-merged", (FM, "for first, last in self._do_get_mapped_ranges(start, count):", "for first, last in self.get_mapped_ranges(start, count):"))
same("fm-sync-helper", (FM, """        try:
            self._f_image.flush()
        except IOError as err:
            raise Error("cannot flush image file '%s': %s" % (self._image_path, err))

        try:
            os.fsync(self._f_image.fileno()),
        except OSError as err:
            raise Error(
                "cannot synchronize image file '%s': %s "
                % (self._image_path, err.strerror)
            )
""", """        self._sync()
"""), (FM, """    def __del__(self):
        \"\"\"The class destructor which""", """    def _sync(self):
        try:
            self._f_image.flush()
            os.fsync(self._f_image.fileno())
        except OSError as err:
            raise Error(
                "cannot synchronize image file '%s': %s "
                % (self._image_path, err.strerror)
            )

    def __del__(self):
        \"\"\"The class destructor which"""))
same("fm-blocks-neg-floor", (FM, "self.blocks_cnt = (self.image_size + self.block_size - 1) // self.block_size", "self.blocks_cnt = -(-self.image_size // self.block_size)"))
same("seek-min-limit", (FM, """            if end > limit:
                end = limit
""", """            end = min(end, limit)
"""))
same("seek-block-range", (FM, "result = offs // self.block_size == block", "result = offs < (block + 1) * self.block_size"))
same("seek-with-tmp", (FM, """        tmp_obj.close()

    def block_is_mapped""", """        tmp_obj.close()
        _log.debug("FilemapSeek: supported")

    def block_is_mapped"""))
same("seek-lseek-else", (FM, """            return -1
        elif err.errno == errno.EINVAL:
            raise ErrorNotSupp(
                "the kernel or file-system does not support "
                '"SEEK_HOLE" and "SEEK_DATA"'
            )
        else:
            raise
""", """            return -1
        if err.errno == errno.EINVAL:
            raise ErrorNotSupp(
                "the kernel or file-system does not support "
                '"SEEK_HOLE" and "SEEK_DATA"'
            )
        raise
"""))
same("factory-two-steps", (FM, """        return FilemapFiemap(image)
    except ErrorNotSupp:
        return FilemapSeek(image)""", """        fmap = FilemapFiemap(image)
    except ErrorNotSupp:
        fmap = FilemapSeek(image)
    return fmap"""))
same("factory-loop", (FM, """    try:
        return FilemapFiemap(image)
    except ErrorNotSupp:
        return FilemapSeek(image)""", """    for cls in (FilemapFiemap, FilemapSeek):
        try:
            return cls(image)
        except ErrorNotSupp as err:
            last = err
    raise last"""))
same("fs-check-output", (HP, """    proc = subprocess.Popen(["df", "-T", "--", abspath], stdout=PIPE, stderr=PIPE)
    stdout, stderr = proc.communicate()
""", """    proc = subprocess.run(["df", "-T", "--", abspath], stdout=PIPE, stderr=PIPE)
    stdout, stderr = proc.stdout, proc.stderr
"""))
same("fs-decode-first", (HP, """        lines = stdout.splitlines()
        if len(lines) >= 2:
            fields = lines[1].split(None, 2)
            if len(fields) >= 2:
                ftype = fields[1].lower().decode("utf-8", "replace")
""", """        lines = stdout.decode("utf-8", "replace").split("\\n")
        if len(lines) > 1:
            fields = lines[1].split()
            if len(fields) > 1:
                ftype = fields[1].lower()
"""))
same("fs-not-zfs", (HP, """    if fstype == "zfs":
        return is_zfs_configuration_compatible()
    return True""", """    return fstype != "zfs" or is_zfs_configuration_compatible()"""))
same("fs-strip", (HP, "return int(fobj.readline()) == 1", "value = int(fobj.read().strip())\n            return value == 1"))
same("bs-fallback", (HP, """        bsize = struct.unpack("I", binary_data)[0]
        if not bsize:
            raise IOError("get 0 bsize by FIGETBSZ ioctl")
""", """        (bsize,) = struct.unpack("I", binary_data)
        if bsize == 0:
            raise OSError("get 0 bsize by FIGETBSZ ioctl")
"""))

# ------------------------------------------------------------------ BmapCreate

CR = "bmaptools/BmapCreate.py"
WHILE = """        while read < to_read:
            if read + chunk_size > to_read:
                chunk_size = to_read - read
            chunk = self._f_image.read(chunk_size)
            hash_obj.update(chunk)
            read += chunk_size
"""
CALC = """        start = first * self.block_size
        end = (last + 1) * self.block_size

        self._f_image.seek(start)
        hash_obj = hashlib.new(self._cs_type)

        chunk_size = 1024 * 1024
        to_read = end - start
        read = 0

""" + WHILE
EL = """            if first != last:
                self._f_bmap.write(
                    "        <Range%s> %s-%s </Range>\\n" % (chksum, first, last)
                )
            else:
                self._f_bmap.write("        <Range%s> %s </Range>\\n" % (chksum, first))
"""
bug("create-count", "C16", (CR, "self.mapped_cnt += last - first + 1", "self.mapped_cnt += last - first"))
bug("create-count-once", "C16", (CR, "self.mapped_cnt += last - first + 1", "self.mapped_cnt = last - first + 1"))
bug("create-count-late", "C16", (CR, """        self._f_bmap.seek(self._mapped_count_pos2)
        self._f_bmap.write("%u" % self.mapped_cnt)

        self._f_bmap.seek(0)
        hash_obj = hashlib.new(self._cs_type)
        hash_obj.update(self._f_bmap.read().encode())
        chksum = hash_obj.hexdigest()
""", """        self._f_bmap.seek(0)
        hash_obj = hashlib.new(self._cs_type)
        hash_obj.update(self._f_bmap.read().encode())
        chksum = hash_obj.hexdigest()
        self._f_bmap.seek(self._mapped_count_pos2)
        self._f_bmap.write("%u" % self.mapped_cnt)
"""))
bug("create-own-zeroes", "C16", (CR, 'xml = "0" * self._cs_len + " </Bmap', 'xml = " " * self._cs_len + " </Bmap'))
bug("create-own-partial", "C16", (CR, """        self._f_bmap.seek(0)
        hash_obj = hashlib.new(self._cs_type)
""", """        self._f_bmap.seek(self._mapped_count_pos1)
        hash_obj = hashlib.new(self._cs_type)
"""))
bug("create-own-sha256", "C16", (CR, """        self._f_bmap.seek(0)
        hash_obj = hashlib.new(self._cs_type)
""", """        self._f_bmap.seek(0)
        hash_obj = hashlib.sha256()
"""))
bug("create-own-length", "C16", (CR, "self._cs_len = len(hashlib.new(self._cs_type).hexdigest())", "hashlib.new(self._cs_type)\n            self._cs_len = 64"))
bug("create-room", "C16", (CR, '" " * len(str(self.blocks_cnt))', '" " * 6'))
bug("create-room-comment", "C16", (CR, '" " * len("100.0%"),', '" " * len("10%"),'))
bug("create-room-percent", "C16", (CR, '"%s or %.1f%%" % (', '"%s or %.6f%%" % ('))
bug("create-swapped-positions", "C16", (CR, "self._f_bmap.seek(self._mapped_count_pos1)", "self._f_bmap.seek(self._mapped_count_pos2)"), (CR, """        self._f_bmap.seek(self._mapped_count_pos2)
        self._f_bmap.write("%u" """, """        self._f_bmap.seek(self._mapped_count_pos1)
        self._f_bmap.write("%u" """))
bug("create-single", "C16", (CR, "            if first != last:", "            if first + 1 < last:"))
bug("create-end-inclusive", "C16", (CR, '%s-%s </Range>\\n" % (chksum, first, last)', '%s-%s </Range>\\n" % (chksum, first, last + 1)'))
bug("create-unmapped", "C16", (CR, "self.filemap.get_mapped_ranges(0, ", "self.filemap.get_unmapped_ranges(0, "))
bug("create-short-area", "C16", (CR, "self.filemap.get_mapped_ranges(0, self.blocks_cnt)", "self.filemap.get_mapped_ranges(0, self.image_size // self.block_size)"))
bug("create-skip-range", "C16", (CR, EL, EL.replace("            if first != last:", "            if first != last and last == self.blocks_cnt - 1 and not include_checksums:\n                continue\n            if first != last:")))
bug("create-sizes", "C16", (CR, """            self.image_size,
            self.block_size,
            self.blocks_cnt,
        )
        xml += """, """            self.image_size,
            self.block_size,
            self.image_size // self.block_size,
        )
        xml += """))
bug("create-size-rounded", "C16", (CR, """            self.image_size,
            self.block_size,
            self.blocks_cnt,
        )
        xml += """, """            self.blocks_cnt * self.block_size,
            self.block_size,
            self.blocks_cnt,
        )
        xml += """))
bug("create-no-flush", "C16", (CR, "            self._f_bmap.flush()\n", "            pass\n"))
bug("create-flush-ignored", "C16", (CR, """            raise Error("cannot flush the bmap file '%s': %s" % (self._bmap_path, err))""", """            pass"""))
bug("create-position", "C16", (CR, "        self._f_image.seek(image_pos)\n", ""))
bug("create-zero", "C16", (CR, "        if self.image_size == 0:\n", "        if self.image_size == -1:\n"))
bug("create-typed", "C16", (CR, "<ChecksumType> %s </ChecksumType>\\n\\n\" % self._cs_type", "<ChecksumType> %s </ChecksumType>\\n\\n\" % \"sha256\""))
bug("create-version", "C16", (CR, 'SUPPORTED_BMAP_VERSION = "2.0"', 'SUPPORTED_BMAP_VERSION = "1.3"'))
bug("create-unescaped", "C16", (CR, "    <!-- Image size in bytes: %s -->", "    <!-- Image size in bytes: %s --->"))
bug("create-sum-start", "C17", (CR, "        self._f_image.seek(start)\n", ""))
bug("create-sum-end", "C17", (CR, "        end = (last + 1) * self.block_size", "        end = last * self.block_size"))
bug("create-sum-chunk", "C17", (CR, WHILE, WHILE.replace("                chunk_size = to_read - read\n", "                break\n")))
bug("create-sum-clip", "C17", (CR, WHILE, WHILE.replace("if read + chunk_size > to_read:", "if read + chunk_size > to_read + 1:")))
bug("create-sum-first", "C17", (CR, WHILE, WHILE.replace("            hash_obj.update(chunk)\n", "            hash_obj = hashlib.new(self._cs_type)\n            hash_obj.update(chunk)\n")))
bug("create-sum-limit", "C17", (CR, "        to_read = end - start\n", "        to_read = min(end - start, 1024 * 1024 * 1024)\n"))
bug("create-sum-type", "C17", (CR, """        hash_obj = hashlib.new(self._cs_type)

        chunk_size""", """        hash_obj = hashlib.new("sha256")

        chunk_size"""))
bug("create-sum-image-end", "C17", (CR, "        to_read = end - start\n", "        to_read = min(end, self.image_size - self.image_size % 512) - start\n"))
bug("create-sum-absent", "C17", (CR, "            if include_checksums:\n", "            if include_checksums and first != last:\n"))
bug("create-sum-shared", "C17", (CR, "        self._cs_type = chksum_type.lower()\n", "        self._cs_type = chksum_type.lower()\n        self._hash = None\n"), (CR, """        hash_obj = hashlib.new(self._cs_type)

        chunk_size""", """        if self._hash is None:
            self._hash = hashlib.new(self._cs_type)
        hash_obj = self._hash

        chunk_size"""))
same("create-for", (CR, EL, EL.replace("            if first != last:", "            blocks = \"%s-%s\" % (first, last) if last > first else \"%s\" % first\n            self._f_bmap.write(\"        <Range%s> %s </Range>\\n\" % (chksum, blocks))\n            continue\n            if first != last:")))
same("create-fmt", (CR, EL, EL.replace("            if first != last:", "            blocks = f\"{first}\" if last == first else f\"{first}-{last}\"\n            self._f_bmap.write(f\"        <Range{chksum}> {blocks} </Range>\\n\")\n            continue\n            if first != last:")))
same("create-chunks", (CR, WHILE, """        while to_read > 0:
            chunk = self._f_image.read(min(chunk_size, to_read))
            hash_obj.update(chunk)
            to_read -= min(chunk_size, to_read)
"""))
same("create-chunks-eof", (CR, WHILE, """        while to_read > 0:
            chunk = self._f_image.read(min(chunk_size, to_read))
            if not chunk:
                break
            hash_obj.update(chunk)
            to_read -= len(chunk)
"""))
same("create-for-range", (CR, WHILE, """        for offset in range(0, to_read, chunk_size):
            hash_obj.update(self._f_image.read(min(chunk_size, to_read - offset)))
"""))
same("create-whole", (CR, WHILE, """        hash_obj.update(self._f_image.read(to_read))
"""))
same("create-clipped", (CR, "        to_read = end - start\n", "        to_read = min(end, self.image_size) - start\n"))
same("create-helper", (CR, """        self._f_bmap.seek(self._mapped_count_pos1)
        self._f_bmap.write(
            "%s or %.1f%%" % (self.mapped_size_human, self.mapped_percent)
        )

        self._f_bmap.seek(self._mapped_count_pos2)
        self._f_bmap.write("%u" % self.mapped_cnt)
""", """        def patch(pos, text):
            self._f_bmap.seek(pos)
            self._f_bmap.write(text)

        patch(self._mapped_count_pos2, str(self.mapped_cnt))
        patch(self._mapped_count_pos1, "%s or %.1f%%" % (self.mapped_size_human, self.mapped_percent))
"""))
same("create-own-new", (CR, """        hash_obj = hashlib.new(self._cs_type)
        hash_obj.update(self._f_bmap.read().encode())
        chksum = hash_obj.hexdigest()
""", """        text = self._f_bmap.read()
        chksum = hashlib.new(self._cs_type, text.encode("utf-8")).hexdigest()
"""))
same("create-fstring", (CR, """            "%s or %.1f%%" % (self.mapped_size_human, self.mapped_percent)
""", """            f"{self.mapped_size_human} or {self.mapped_percent:.1f}%"
"""))
same("create-length", (CR, "self._cs_len = len(hashlib.new(self._cs_type).hexdigest())", "self._cs_len = hashlib.new(self._cs_type).digest_size * 2"))
same("create-zfill", (CR, 'xml = "0" * self._cs_len + " </Bmap', 'xml = "%s </Bmap'), (CR, "FileChecksum>\\n\\n\"\n        xml += (\n", "FileChecksum>\\n\\n\" % (\"0\" * self._cs_len)\n        xml += (\n"))
same("create-join", (CR, """        xml = "    </BlockMap>\\n"
        xml += "</bmap>\\n"

        self._f_bmap.write(xml)
""", """        self._f_bmap.write("\\n".join(("    </BlockMap>", "</bmap>", "")))
"""))
same("create-enum", (CR, "        self.mapped_cnt = 0\n        for first, last in self.filemap.get_mapped_ranges(0, self.blocks_cnt):\n            self.mapped_cnt += last - first + 1\n", "        self.mapped_cnt = 0\n        for extent in self.filemap.get_mapped_ranges(0, self.blocks_cnt):\n            first, last = extent\n            self.mapped_cnt += (last + 1) - first\n"))
same("create-try", (CR, "        self._f_image.seek(image_pos)\n", "        self._f_image.seek(image_pos, os.SEEK_SET)\n"), (CR, "import hashlib\n", "import hashlib\nimport os\n"))

# ------------------------------------------------------------------ contrib/bmap_write.py

CW = "contrib/bmap_write.py"
CWL = """            filedata.seek(start_offset, 0)
            outdata.seek(start_offset, 0)
            for i in range(end - start + 1):
                outdata.write(filedata.read(blocksize))
"""
bug("write-last-block", "C32", (CW, "range(end - start + 1)", "range(max(end - start, 1))"))
bug("write-no-seek", "C32", (CW, "            outdata.seek(start_offset, 0)\n", ""))
bug("write-seek-relative", "C32", (CW, "outdata.seek(start_offset, 0)", "outdata.seek(start_offset, 1)"))
bug("write-no-sync", "C32", (CW, "        os.fsync(outdata.fileno())", "        pass"))
bug("write-no-flush", "C32", (CW, "        outdata.flush()\n", ""))
bug("write-text", "C32", (CW, 'open(raw_file, "rb")', 'open(raw_file, "r")'))
bug("write-digit", "C32", (CW, '"^\\s*(\\d+)\\s*-\\s*(\\d+)\\s*$"', '"^\\s*(\\d+)\\s*-\\s*(\\d)\\s*$"'))
bug("write-spaces", "C32", (CW, '"^\\s*(\\d+)\\s*-\\s*(\\d+)\\s*$"', '"^\\s*(\\d+)-(\\d+)\\s*$"'))
bug("write-size", "C32", (CW, 'bmap_root.find("ImageSize").text', 'bmap_root.find("BlocksCount").text'))
bug("write-swallow", "C32", (CW, CWL, CWL.replace("                outdata.write(filedata.read(blocksize))", "                try:\n                    outdata.write(filedata.read(blocksize))\n                except IOError:\n                    break")))
bug("write-ext", "C32", (CW, 'bmap_file = file_root + ".bmap"', 'bmap_file = raw_file + ".bmap"'))
bug("write-append", "C32", (CW, 'open(output_file, "wb")', 'open(output_file, "ab")'))
bug("write-exit-zero", "C32", (CW, """    print("bmap-file '%s' doesn't exist" % bmap_file)
    sys.exit(1)""", """    print("bmap-file '%s' doesn't exist" % bmap_file)
    sys.exit()"""))
bug("write-big-chunk", "C32", (CW, CWL, CWL.replace("filedata.read(blocksize)", "filedata.read(max(blocksize, 4096))")))
bug("write-first-only", "C32", (CW, 'bmap_root.find("BlockMap").findall("Range"):', 'bmap_root.find("BlockMap").findall("Range"):\n            if bmap_range.text is None:\n                break\n            if outdata.tell() > int(bmap_root.find("ImageSize").text) - blocksize:\n                continue'))
same("write-chunk", (CW, CWL, """            filedata.seek(start_offset)
            outdata.seek(start_offset)
            left = (end + 1) * blocksize - start_offset
            while left > 0:
                data = filedata.read(min(left, 65536))
                if not data:
                    break
                outdata.write(data)
                left -= len(data)
"""))
same("write-whole", (CW, CWL, """            filedata.seek(start_offset)
            outdata.seek(start_offset)
            outdata.write(filedata.read((end - start + 1) * blocksize))
"""))
same("write-per-block", (CW, CWL, """            for block in range(start, end + 1):
                filedata.seek(block * blocksize)
                outdata.seek(block * blocksize)
                outdata.write(filedata.read(blocksize))
"""))
same("write-split", (CW, """            m = re.match("^\\s*(\\d+)\\s*-\\s*(\\d+)\\s*$", blockrange)
            if m:
                start = int(m.group(1))
                end = int(m.group(2))
            else:
                start = int(blockrange)
                end = start
""", """            limits = [int(x) for x in blockrange.split("-")]
            start = limits[0]
            end = limits[-1]
"""))
same("write-partition", (CW, """            m = re.match("^\\s*(\\d+)\\s*-\\s*(\\d+)\\s*$", blockrange)
            if m:
                start = int(m.group(1))
                end = int(m.group(2))
            else:
                start = int(blockrange)
                end = start
""", """            first, dash, last = blockrange.strip().partition("-")
            start = int(first)
            end = int(last) if dash else start
"""))
same("write-groups", (CW, """                start = int(m.group(1))
                end = int(m.group(2))
""", """                start, end = map(int, m.groups())
"""))
same("write-compiled", (CW, "blocksize = int(", 'range_re = re.compile(r"\\s*(\\d+)\\s*-\\s*(\\d+)\\s*$")\nblocksize = int('), (CW, 're.match("^\\s*(\\d+)\\s*-\\s*(\\d+)\\s*$", blockrange)', "range_re.match(blockrange)"))
same("write-find", (CW, 'bmap_root.find("BlockMap").findall("Range")', 'bmap_root.iter("Range")'))
same("write-helper", (CW, "bmap_root = ET.parse(bmap_file).getroot()\n", """

def copy(src, dst, first, last, size):
    src.seek(first * size, 0)
    dst.seek(first * size, 0)
    for _ in range(first, last + 1):
        dst.write(src.read(size))


bmap_root = ET.parse(bmap_file).getroot()
"""), (CW, "            start_offset = start * blocksize\n" + CWL, "            copy(filedata, outdata, start, end, blocksize)\n"))
same("write-one-with", (CW, """with open(raw_file, "rb") as filedata:
    with open(output_file, "wb") as outdata:
        try:""", """if True:
    with open(raw_file, "rb") as filedata, open(output_file, "wb") as outdata:
        try:"""))

# ------------------------------------------------------------------ psplash, threads, inputs, diagnostics

PS = '''            try:
                mode = os.O_WRONLY | os.O_NONBLOCK
                with os.fdopen(os.open(self._psplash_pipe, mode), "w") as p_fo:
                    p_fo.write("PROGRESS %d\\n" % percent)
            except:
                pass
'''
PQ = '''        try:
            is_pipe = stat.S_ISFIFO(os.stat(path).st_mode)
        except OSError:
            is_pipe = False

        if is_pipe:
'''
bug("psplash-narrow", "C26", (BC, PS, PS.replace("except:", "except BrokenPipeError:")))
bug("psplash-blocking", "C26", (BC, " | os.O_NONBLOCK", ""))
bug("psplash-open", "C26", (BC, PS, PS.replace('os.fdopen(os.open(self._psplash_pipe, mode), "w")', 'open(self._psplash_pipe, "w")')))
bug("psplash-any-file", "C26", (BC, PQ, "        if os.path.exists(path):\n"))
bug("psplash-race", "C26", (BC, PQ, "        if os.path.exists(path) and stat.S_ISFIFO(os.stat(path).st_mode):\n"))
bug("psplash-unknown", "C29", (BC, "        if self._psplash_pipe and self.mapped_cnt:\n            try:\n                mode", "        if self._psplash_pipe:\n            try:\n                mode"), (BC, "            except:\n                pass", "            except OSError:\n                pass"))
bug("psplash-text", "C26", (BC, '"PROGRESS %d\\n" % percent', '"PROGRESS %d%%\\n" % percent'))
bug("psplash-blocks", "C26", (BC, '"PROGRESS %d\\n" % percent', '"PROGRESS %d\\n" % blocks_written'))
bug("psplash-no-newline", "C26", (BC, '"PROGRESS %d\\n" % percent', '"PROGRESS %d" % percent'))
bug("psplash-create", "C26", (BC, "os.O_WRONLY | os.O_NONBLOCK", "os.O_WRONLY | os.O_NONBLOCK | os.O_CREAT"))
bug("psplash-skip", "C26", (BC, "            if self.mapped_cnt:\n                progress = ", "            if self.mapped_cnt and not blocks_written % 2:\n                progress = "))
bug("psplash-only-some", "C26", (BC, "        if self._psplash_pipe and self.mapped_cnt:", "        if self._psplash_pipe and self.mapped_cnt and percent != 100:"))
bug("psplash-raise", "C26", (BC, "            except:\n                pass", "            except OSError as err:\n                raise Error(\"psplash: %s\" % err)"))
bug("psplash-close", "C26", (BC, PS, """            mode = os.O_WRONLY | os.O_NONBLOCK
            try:
                p_fo = os.fdopen(os.open(self._psplash_pipe, mode), "w")
            except OSError:
                return
            try:
                p_fo.write("PROGRESS %d\\n" % percent)
            except OSError:
                pass
            p_fo.close()
"""))
same("psplash-oserror", (BC, PS, PS.replace("except:", "except OSError:")))
same("psplash-oswrite", (BC, PS, """            try:
                fd = os.open(self._psplash_pipe, os.O_NONBLOCK | os.O_WRONLY)
                try:
                    os.write(fd, ("PROGRESS %d\\n" % percent).encode())
                finally:
                    os.close(fd)
            except OSError as err:
                _log.debug("psplash: %s", err)
"""))
same("psplash-helper", (BC, PS, "            self._tell_psplash(percent)\n"), (BC, "    def _get_block_ranges(self):", '''    def _tell_psplash(self, percent):
        flags = os.O_WRONLY | os.O_NONBLOCK
        try:
            with os.fdopen(os.open(self._psplash_pipe, flags), "w") as pipe:
                pipe.write("PROGRESS {}\\n".format(percent))
        except Exception:
            _log.debug("cannot update psplash")

    def _get_block_ranges(self):'''))
same("psplash-exists", (BC, PQ, '''        is_pipe = False
        if os.path.exists(path):
            try:
                is_pipe = stat.S_ISFIFO(os.stat(path).st_mode)
            except OSError as err:
                _log.debug("%s", err)

        if is_pipe:
'''))
same("psplash-percent", (BC, "percent = int((float(blocks_written) / self.mapped_cnt) * 100)", "percent = blocks_written * 100 // self.mapped_cnt"))

bug("reader-seeks-dest", "C27", (BC, "                self._f_image.seek(first * self.block_size)\n", "                self._f_image.seek(first * self.block_size)\n                self._f_dest.seek(first * self.block_size)\n"), (BC, "            self._f_dest.seek(start * self.block_size)\n", "            if not chained:\n                self._f_dest.seek(start * self.block_size)\n"), (BC, "        fsync_last = 0\n", "        fsync_last = 0\n        chained = False\n"))
bug("reader-flushes", "C27", (BC, "                if verify and chksum and hash_obj", "                self._f_dest.flush()\n                if verify and chksum and hash_obj"))
bug("writer-reads-image", "C27", (BC, "            self._batch_queue.task_done()\n", "            self._batch_queue.task_done()\n            if not buf:\n                self._f_image.seek(0)\n            self._f_image.tell()\n"))
bug("shared-cursor", "C27", (BC, "                for (start, end, length) in iterator:\n", "                for (start, end, length) in iterator:\n                    self._cursor = start\n"), (BC, "            (start, end, buf) = batch[1:4]\n", "            (start, end, buf) = batch[1:4]\n            _log.debug(\"reader is at %d\", self._cursor)\n"), (BC, "        blocks_written = 0\n        bytes_written = 0\n", "        blocks_written = 0\n        bytes_written = 0\n        self._cursor = 0\n"))
bug("shared-batch", "C27", (BC, "            self._batch_queue.task_done()\n", "            self._batch_queue.task_done()\n            self._batch_blocks = max(1, self._batch_blocks - 1)\n"))
bug("shared-size", "C27", (BC, "                    if not buf:\n                        if self._f_bmap:", "                    if not buf:\n                        if not self.image_size:\n                            self._set_image_size(start * self.block_size)\n                        if self._f_bmap:"))
bug("shared-chksum", "C27", (BC, "        if verify and chksum:\n                    hash_obj = hashlib.new(self._cs_type)", "        if verify and chksum:\n                    self._block_size = self.block_size\n                    hash_obj = hashlib.new(self._cs_type)"), (BC, "            self._f_dest.seek(start * self.block_size)\n", "            self._f_dest.seek(start * getattr(self, '_block_size', self.block_size))\n"))
same("threads-own-attr", (BC, "                for (start, end, length) in iterator:\n", "                for (start, end, length) in iterator:\n                    self._cursor = start\n"))
same("threads-local", (BC, '        _log.debug("the reader thread has started")\n', '        _log.debug("the reader thread has started")\n        image = self._f_image\n'), (BC, "                self._f_image.seek(first", "                image.seek(first"), (BC, "buf = self._f_image.read(", "buf = image.read("))

bug("input-touch", "C28", (BC, "            self.block_size = 4096\n", "            self.block_size = 4096\n            self._f_image.truncate()\n"))
bug("input-compress", "C28", ("bmaptools/CLI.py", "    if not bmap_obj.is_url:\n", "    if bmap_path != args.bmap:\n        os.utime(bmap_path)\n    if not bmap_obj.is_url:\n"))
bug("input-sig-rw", "C28", ("bmaptools/CLI.py", "signature = io.FileIO(sig_obj.name)", "signature = io.FileIO(sig_obj.name, 'rb+')"))
bug("input-image-rw", "C28", ("bmaptools/BmapCreate.py", 'self._f_image = open(self._image_path, "rb")', 'self._f_image = open(self._image_path, "rb+")'))
bug("input-bmap-shared", "C28", ("bmaptools/CLI.py", "    if f_obj:\n        bmap_obj.close()\n", "    if f_obj:\n        bmap_obj.close()\n        shutil.copyfileobj(f_obj, open(bmap_path, 'wb'))\n        f_obj.seek(0)\n"))
bug("input-map-rw", "C28", ("bmaptools/Filemap.py", 'open(self._image_path, "rb")', 'open(self._image_path, "ab+")'))
bug("input-trans-rw", "C28", ("bmaptools/TransRead.py", 'open(self.name, "rb")', 'open(self.name, "rb+")'))
bug("input-removed", "C28", ("bmaptools/CLI.py", "    dest_obj.close()\n    if bmap_obj:", "    dest_obj.close()\n    if args.bmap_sig:\n        os.unlink(args.bmap_sig)\n    if bmap_obj:"))

bug("diag-short-range", "C29", (BC, '"bad range (first > last): \'%s\'" % blocks_range', '"bad range (first > last): %d-%s" % (blocks_range, last)'))
bug("diag-name", "C29", (BC, "% (start, end, self._image_path, err)", "% (start, end, self._image_path, error)"))
bug("diag-attr", "C29", (BC, "                raise Error(\"cannot truncate file '%s': %s\" % (self._dest_path, err))\n\n        if sync", "                raise Error(\"cannot truncate file '%s': %s\" % (self._destination_path, err))\n\n        if sync"))
bug("diag-count", "C29", (BC, '"calculated %s, should be %s (image file %s)"', '"calculated %s, should be %s"'))
bug("diag-percent", "C29", (BC, '"wrote %u blocks from image', '"wrote %u blocks (100%) from image'))
bug("diag-cli-name", "C29", ("bmaptools/CLI.py", "error_out(\"cannot create a temporary file:\\n%s\", err)\n\n    try:\n        creator", "error_out(\"cannot create a temporary file:\\n%s\" % error)\n\n    try:\n        creator"))
bug("diag-errno", "C29", ("bmaptools/Filemap.py", "errno.EOPNOTSUPP", "os.errno.EOPNOTSUPP"))
bug("diag-create", "C29", ("bmaptools/BmapCreate.py", '"cannot open image file \'%s\': %s" % (self._image_path, err)', '"cannot open image file \'%s\': %s" % self._image_path, err'))


# ------------------------------------------------------------------ is a program there?

BH = "bmaptools/BmapHelpers.py"
_PROG = """    for path in os.environ["PATH"].split(os.pathsep):
        program = os.path.join(path.strip('"'), name)
        if os.path.isfile(program) and os.access(program, os.X_OK):
            return True

    return False
"""
bug("program-not-executable", "C22", (BH, "os.path.isfile(program) and os.access(program, os.X_OK)", "os.path.isfile(program) and os.access(program, os.R_OK)"))
bug("program-directory", "C22", (BH, "os.path.isfile(program) and os.access(program, os.X_OK)", "os.access(program, os.X_OK)"))
bug("program-directory-itself", "C22", (BH, "os.path.join(path.strip('\"'), name)", "path.strip('\"')"))
bug("program-always", "C22", (BH, _PROG, _PROG.replace("return False", "return True")))
bug("program-last-only", "C22", (BH, _PROG, """    found = False
    for path in os.environ["PATH"].split(os.pathsep):
        program = os.path.join(path.strip('"'), name)
        found = os.path.isfile(program) and os.access(program, os.X_OK)

    return found
"""))
same("program-which", (BH, _PROG, "    return shutil.which(name) is not None\n"), (BH, "import os\n", "import os\nimport shutil\n"))
same("program-any", (BH, _PROG, """    candidates = [os.path.join(p.strip('"'), name) for p in os.environ["PATH"].split(os.pathsep)]
    return any(os.path.isfile(c) and os.access(c, os.X_OK) for c in candidates)
"""))
same("program-helper", (BH, _PROG, """    def usable(program):
        if not os.access(program, os.X_OK):
            return False
        return os.path.isfile(program)

    for path in os.environ["PATH"].split(os.pathsep):
        if usable(os.path.join(path.strip('"'), name)):
            return True
    return False
"""))


# ------------------------------------------------------------------ more of copying

_FIN = """        if self._dest_is_regfile:
            # Make sure the destination file has the same size as the image
            try:
                os.ftruncate(self._f_dest.fileno(), self.image_size)
            except OSError as err:
                raise Error("cannot truncate file '%s': %s" % (self._dest_path, err))

        if sync:
            self.sync()
"""
bug("copy2-nobmap-last-block", "C02", (BC, "yield (0, self.blocks_cnt - 1, None)", "yield (0, max(self.blocks_cnt - 2, 0), None)"))
bug("copy2-nobmap-overlap", "C02 C03", (BC, "                    first += self._batch_blocks\n", "                    first += self._batch_blocks + 1\n"))
bug("copy2-nobmap-short-ok", "C02", (BC, "        if blocks_written != self.mapped_cnt:", "        if blocks_written != self.mapped_cnt and self._f_bmap:"))
bug("copy2-more-ok", "C02", (BC, "        if blocks_written != self.mapped_cnt:", "        if self.mapped_cnt - blocks_written > 1:"))
bug("copy2-none-before-error", "C04", (BC, """            self._batch_queue.put(("error", sys.exc_info()))

        self._batch_queue.put(None)""", """            self._batch_queue.put(None)
            self._batch_queue.put(("error", sys.exc_info()))
            return

        self._batch_queue.put(None)"""))
bug("copy2-error-own-only", "C04", (BC, "                reraise(exc_info[0], exc_info[1], exc_info[2])", "                if issubclass(exc_info[0], (Error, EnvironmentError)):\n                    reraise(exc_info[0], exc_info[1], exc_info[2])\n                break"))
bug("copy2-get-timeout", "C04", (BC, "            batch = self._batch_queue.get()\n", "            try:\n                batch = self._batch_queue.get(timeout=60)\n            except Queue.Empty:\n                break\n"))
bug("copy2-eof-error-return", "C04", (BC, """                    except IOError as err:
                        raise Error(
                            "error while reading blocks""", """                    except EOFError:
                        buf = b""
                    except IOError as err:
                        raise Error(
                            "error while reading blocks"""))
bug("copy2-trunc-only-partial", "C05", (BC, _FIN, _FIN.replace("if self._dest_is_regfile:", "if self._dest_is_regfile and bytes_written > self.image_size:")))
bug("copy2-trunc-nobmap-only", "C05", (BC, _FIN, _FIN.replace("if self._dest_is_regfile:", "if self._dest_is_regfile and not self._f_bmap:")))
bug("copy2-trunc-round", "C05", (BC, _FIN, _FIN.replace("os.ftruncate(self._f_dest.fileno(), self.image_size)", "os.ftruncate(self._f_dest.fileno(), self.blocks_cnt * self.block_size)")))
bug("copy2-trunc-after-sync", "C06", (BC, _FIN, "        if sync:\n            self.sync()\n\n" + _FIN.replace("\n        if sync:\n            self.sync()\n", "")))
bug("copy2-sync-watermark-enough", "C06", (BC, "        if sync:\n            self.sync()\n", "        if sync and fsync_last != blocks_written:\n            self.sync()\n"))
bug("copy2-sync-einval", "C06", (BC, "                raise Error(\n                    \"cannot synchronize '%s': %s \" % (self._dest_path, err.strerror)\n                )", "                if err.errno != 22:\n                    raise Error(\n                        \"cannot synchronize '%s': %s \" % (self._dest_path, err.strerror)\n                    )"))
bug("copy2-sync-only-big", "C06", (BC, "        if sync:\n            self.sync()\n", "        if sync and blocks_written:\n            self.sync()\n"))
bug("copy2-chksum-prefix", "C01", (BC, "hash_obj.hexdigest() != chksum:", "not hash_obj.hexdigest().startswith(chksum):"))
bug("copy2-chksum-contains", "C01", (BC, "hash_obj.hexdigest() != chksum:", "hash_obj.hexdigest() not in chksum:"))
same("copy2-chksum-unknown-type", (BC, "                    hash_obj = hashlib.new(self._cs_type)\n\n                self._f_image", """                    try:
                        hash_obj = hashlib.new(self._cs_type)
                    except ValueError:
                        verify = False

                self._f_image"""))
bug("copy2-chksum-once", "C01", (BC, "                if verify and chksum and hash_obj.hexdigest() != chksum:", "                if verify and chksum and start == first and hash_obj.hexdigest() != chksum:"))
bug("copy2-chksum-before-last", "C01", (BC, "                    if verify and chksum:\n                        hash_obj.update(buf)", "                    if verify and chksum and len(buf) == length * self.block_size:\n                        hash_obj.update(buf)"))
bug("copy2-chksum-zero-first", "C01", (BC, "                if verify and chksum and hash_obj.hexdigest() != chksum:", "                if verify and first and chksum and hash_obj.hexdigest() != chksum:"))
bug("copy2-seek-if-needed", "C03", (BC, "            self._f_dest.seek(start * self.block_size)\n", "            if start != blocks_written:\n                self._f_dest.seek(start * self.block_size)\n"))
bug("copy2-reader-seek-first-range", "C03", (BC, "                self._f_image.seek(first * self.block_size)\n", "                if chksum or not self._f_bmap:\n                    self._f_image.seek(first * self.block_size)\n"))
bug("copy2-start-aligned", "C03", (BC, "(\"range\", start, start + blocks - 1, buf)", "(\"range\", end - blocks + 1, end, buf)"))
bug("copy2-write-retry", "C03", (BC, """            except IOError as err:
                raise Error(
                    "error while writing blocks""", """            except InterruptedError:
                self._f_dest.write(buf)
            except IOError as err:
                raise Error(
                    "error while writing blocks"""))
bug("copy2-write-nospace", "C02 C04", (BC, """            except IOError as err:
                raise Error(
                    "error while writing blocks""", """            except IOError as err:
                if err.errno == 28 and end == self.blocks_cnt - 1:
                    pass
                else:
                  raise Error(
                    "error while writing blocks"""))
bug("copy2-zero-batch-skipped", "C02", (BC, "            try:\n                self._f_dest.write(buf)", "            try:\n                if buf.count(0) != len(buf):\n                    self._f_dest.write(buf)"))
bug("copy2-reader-counts", "C27", (BC, "                    self._batch_queue.put((\"range\", start,", "                    self._progress_index += 1\n                    self._batch_queue.put((\"range\", start,"))
bug("copy2-unbuffered-dest", "C02", ("bmaptools/CLI.py", "open(args.dest, \"wb+\")", "open(args.dest, \"wb+\", 0)"))
same("copy2-dest-truncate", (BC, "                os.ftruncate(self._f_dest.fileno(), self.image_size)\n            except OSError as err:\n                raise Error(\"cannot truncate file '%s': %s\" % (self._dest_path, err))\n\n        if sync", "                self._f_dest.truncate(self.image_size)\n            except OSError as err:\n                raise Error(\"cannot truncate file '%s': %s\" % (self._dest_path, err))\n\n        if sync"))
same("copy2-memoryview", (BC, "                self._f_dest.write(buf)", "                self._f_dest.write(memoryview(buf))"))
same("copy2-final-helper", (BC, _FIN, "        self._finish(sync)\n\n    def _finish(self, sync):\n" + _FIN))
same("copy2-flush-in-sync", (BC, "        if self._dest_supports_fsync:\n            try:\n                os.fsync", "        try:\n            self._f_dest.flush()\n        except IOError as err:\n            raise Error(\"cannot flush '%s': %s\" % (self._dest_path, err))\n\n        if self._dest_supports_fsync:\n            try:\n                os.fsync"))
same("copy2-queue-objects", (BC, "self._batch_queue.put((\"range\", start, start + blocks - 1, buf))", "item = (\"range\", start, start + blocks - 1, buf)\n                    self._batch_queue.put(item)"))
same("copy2-iter-queue", (BC, "        while True:\n            batch = self._batch_queue.get()\n            if batch is None:\n                # No more data, the image is written\n                break\n            elif batch[0]", "        for batch in iter(self._batch_queue.get, None):\n            if batch[0]"))
same("copy2-local-queue", (BC, "        while True:\n            batch = self._batch_queue.get()\n", "        queue = self._batch_queue\n        while True:\n            batch = queue.get()\n"))

bug("copy2-put-nowait", "C02", (BC, "                    self._batch_queue.put((\"range\", start, start + blocks - 1, buf))", """                    try:
                        self._batch_queue.put_nowait(("range", start, start + blocks - 1, buf))
                    except Queue.Full:
                        self._batch_queue.put(None)
                        return"""))
same("copy2-get-poll", (BC, "            batch = self._batch_queue.get()\n", """            try:
                batch = self._batch_queue.get(timeout=1)
            except Queue.Empty:
                _log.debug("still waiting")
                continue
"""))
