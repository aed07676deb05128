"""
Hand-written changes of ndspy: (name, check expected to notice it, file, old text, new text).
Only one occurrence of the old text is changed (the first, or the one numbered in a sixth field).
"""
PROBES = [
    # ROMs
    ('rom_removed_files', 'C10', 'rom.py', ' and fileNum < len(self.files)', ''),
    ('rom_arm7_overlays', 'C06', 'rom.py', 'code.loadOverlayTable(self.arm7OverlayTable', 'code.loadOverlayTable(self.arm9OverlayTable'),
    ('rom_arm7_settings', 'C05', 'rom.py', '                                 self.arm7CodeSettingsPointerAddress)', '                                 self.arm9CodeSettingsPointerAddress)'),
    ('rom_name_spaces', 'C10', 'rom.py', "readRaw(12).rstrip(b'\\0')", "readRaw(12).rstrip(b'\\0 ')"),
    ('rom_banner_twl', 'C10', 'rom.py', '0x0103: 0x23C0', '0x0103: 0x1A40'),
    ('rom_get_id0', 'C13', 'rom.py', '        if fid is None:', '        if not fid:'),
    ('rom_postdata_once', 'C12', 'rom.py', '        while (data[arm9PostDataOffset:', '        if (data[arm9PostDataOffset:'),
    ('rom_pad200_cut', 'C10', 'rom.py', 'data[0x200 : min(arm9Offset, len(data))]', 'data[0x200 : min(arm9Offset, 0x4000)]'),
    ('rom_sig_pointer', 'C12', 'rom.py', 'if len(data) >= 0x1004:', 'if len(data) > 0x800000:'),
    ('rom_save_capacity', 'C25', 'rom.py', 'd = self.save(updateDeviceCapacity=updateDeviceCapacity)', 'd = self.save()'),
    ('rom_overlay_align', 'C11', 'rom.py', "            data.extend(self.files[fileId])\n            align(0x200, b'\\xFF')", "            data.extend(self.files[fileId])\n            align(0x100, b'\\xFF')"),
    ('rom_sorted_ids', 'C12', 'rom.py', '            for fileNum in self.sortedFileIds:', '            for fileNum in sorted(self.sortedFileIds):'),
    ('rom_banner_keep', 'C10', 'rom.py', 'iconBannerLen = _ICON_BANNER_LENGTHS.get(version, _ICON_BANNER_LENGTHS[1])', 'iconBannerLen = _ICON_BANNER_LENGTHS.get(version & 3, _ICON_BANNER_LENGTHS[1])'),
    ('rom_debug_empty', 'C10', 'rom.py', '        if debugRomOffset:\n            self.debugRom', '        if debugRomOffset and self.debugRomAddress:\n            self.debugRom'),
    ('rom_delay_field', 'C10', 'rom.py', '        write16(self.secureTransferDelay)', '        write16(self.secureTransferDelay & 0x7FFF)'),
    ('rom_fat_end', 'C11', 'rom.py', 'endOffset = startOffset + len(file)', 'endOffset = (startOffset + len(file) + 3) & ~3'),
    ('rom_sig_align', 'C11', 'rom.py', '        align(0x20)\n', '        align(0x10)\n'),
    ('rom_crc_before', 'C11', 'rom.py', '_common.crc16(data[0:0x15e])', '_common.crc16(data[0:0x15c])'),
    ('rom_set_extend', 'C13', 'rom.py', '        self.files[fid] = data', '        self.files[fid] = data or self.files[fid]'),
    # code
    ('code_magic_range', 'C05', 'code.py', 'range(0x1C, 0x8000, 4)', 'range(0x1C, 0x4000, 4)'),
    ('code_table_limit', 'C05', 'code.py', '- possibleTableStart < 0x100', '- possibleTableStart < 0x40'),
    ('code_bad_pointer', 'C05', 'code.py', '                assert 0 <= self.codeSettingsOffs <= len(data) - 0x18\n', ''),
    ('code_empty_order', 'C05', 'code.py', 'if len(s.data) == 0: continue', 'if len(s.data) != 0: continue'),
    ('code_ovl_size', 'C06', 'code.py', 'compressedSize_Flags & 0xFFFFFF', 'compressedSize_Flags & 0x7FFFFF'),
    ('code_ovl_order', 'C06', 'code.py', 'for ovId in sorted(table)', 'for ovId in table'),
    ('code_verify', 'C06', 'code.py', 'self.flags &= ~2', 'self.flags &= ~3'),
    ('code_fromcompressed', 'C05', 'code.py', '        return cls(data, *args)', '        return cls(data, args[0])'),
    ('code_tofile', 'C25', 'code.py', 'd = self.save(compress=compress)', 'd = self.save()'),
    ('code_ramsize', 'C06', 'code.py', '        self.ramSize = len(self.data)\n', '        self.ramSize = max(self.ramSize, len(self.data))\n'),
    ('code_section_implicit', 'C05', 'code.py', '            self.implicit = implicit\n', '            self.implicit = implicit or not bssSize and not ramAddress\n'),
    ('code_bss', 'C05', 'code.py', "struct.pack('<3I', s.ramAddress, len(s.data), s.bssSize))", "struct.pack('<3I', s.ramAddress, len(s.data), (s.bssSize + 3) & ~3))"),
    ('code_ids_to_load', 'C06', 'code.py', 'if idsToLoad is not None and ovID not in idsToLoad', 'if idsToLoad and ovID not in idsToLoad'),
    # compression
    ('lz10_len_field', 'C01', 'lz10.py', '(len(data) << 8) | 0x10', '((len(data) & 0xFFFF) << 8) | 0x10'),
    ('lz10_all_literals', 'C02', 'lz10.py', '        if d:\n            for i in range(8):\n                if d & 0x80:', '        if d & 0xFE:\n            for i in range(8):\n                if d & 0x80:'),
    ('lz_search_len', 'C01', '_lzCommon.py', 'upper = min(maxMatchLen, len(data) - pos)', 'upper = min(maxMatchLen, len(data))'),
    ('blz_appended_range', 'C04', 'codeCompression.py', 'range(0, 0x20, 4)', 'range(0, 0x10, 4)'),
    ('blz_header_pad', 'C04', 'codeCompression.py', 'if any(byte != 0xFF for byte in data[headerEnd - headerLen : headerEnd - 8]):', 'if any(byte != 0xFF for byte in data[headerEnd - headerLen : headerEnd - 7]):'),
    ('blz_arm9_short', 'C03', 'codeCompression.py', '        prefix = data[:0x4000]\n        data = data[0x4000:]', '        prefix = data[:0x4000 - 4]\n        data = data[0x4000 - 4:]'),
    ('cli_arm9', 'C25', 'codeCompression.py', 'isArm9=pArgs.is_arm9', 'isArm9=False'),
    ('cli_suffix', 'C25', 'lz10.py', "with_suffix('.dec')", "with_suffix('.bin')"),
    # filename tables
    ('fnt_many_folders', 'C07', 'fnt.py', 'off = 8 * (folderId & 0xFFF)', 'off = 8 * (folderId & 0xFF)'),
    ('fnt_save_many', 'C07', 'fnt.py', '8 * (currentFolderID & 0xFFF)', '8 * (currentFolderID & 0xFF)'),
    ('fnt_prune', 'C08', 'fnt.py', '            # Check subfolders\n            for', '            if id < firstID: return None\n            for'),
    ('fnt_cp1252', 'C07', 'fnt.py', "file.encode('latin-1')", "file.encode('cp1252')"),
    ('fnt_case', 'C08', 'fnt.py', 'if subfolderName == pathPart:\n                    # Yup.', 'if subfolderName.lower() == pathPart.lower():\n                    # Yup.'),
    ('fnt_folder_127', 'C07', 'fnt.py', 'if len(folderName) > 127:', 'if len(folderName) > 126:'),
    ('fnt_lead_slash', 'C08', 'fnt.py', '        while pathList and not pathList[0]: pathList = pathList[1:]\n        if not pathList: return None\n        return findInFolder(pathList, self)\n\n\n    def filenameOf', '        if not pathList: return None\n        return findInFolder(pathList, self)\n\n\n    def filenameOf'),
    ('fnt_contains', 'C08', 'fnt.py', '            self.__getitem__(key)\n            return True', '            return bool(self.__getitem__(key))'),
    ('fnt_firstid', 'C07', 'fnt.py', "folderEntries[folderID] = (d.firstID, parentID", "folderEntries[folderID] = (d.firstID if d.files else 0, parentID"),
    ('fnt_root_parent', 'C07', 'fnt.py', 'return folderCount + 1', 'return folderCount or 1'),
    # NARC
    ('narc_file_pad', 'C09', 'narc.py', '            while len(fimgData) % 4:\n                fimgData.append(0)', '            while len(fimgData) % 4:\n                fimgData.append(0xFF)'),
    ('narc_empty_last', 'C09', 'narc.py', "struct.pack('<II', startOff, endOff)", "struct.pack('<II', startOff if fd else 0, endOff if fd else 0)"),
    ('narc_be_version', 'C09', 'narc.py', 'version = 0x100\n', 'version = 1\n'),
    ('narc_fntb_pad', 'C09', 'narc.py', 'while len(nameTable) % 4:', 'while len(nameTable) % 8:'),
    ('narc_bom_load', 'C09', 'narc.py', "            self.endiannessOfBeginning = '>'\n", "            if self.files: self.endiannessOfBeginning = '>'\n"),
    ('narc_filesize', 'C09', 'narc.py', 'bom, version, len(data), 0x10, 3)', 'bom, version, len(data) - 0x10, 0x10, 3)'),
    # BMG
    ('bmg_label_sign', 'C14', 'bmg.py', "struct.unpack_from(se + 'b', data, bmgIDsTableOffset + i)", "struct.unpack_from(se + 'B', data, bmgIDsTableOffset + i)"),
    ('bmg_index_sign', 'C14', 'bmg.py', "struct.unpack_from(se + 'h', data, indicesTableOffset + i * 2)", "struct.unpack_from(se + 'H', data, indicesTableOffset + i * 2)"),
    ('bmg_encoding_case', 'C14', 'bmg.py', '_ENCODINGS.index(self.encoding.lower())', '_ENCODINGS.index(self.encoding)'),
    ('bmg_escape_len', 'C14', 'bmg.py', 'data.append(len(self.data) + 2 + len(start))', 'data.append(len(self.data) + 2 + len(start) & 0x7F)'),
    ('bmg_step', 'C14', 'bmg.py', '                    offset += len(nullChar)\n', '                    offset += 1\n'),
    ('bmg_flow_only_labels', 'C14', 'bmg.py', 'if self.instructions or self.labels:', 'if self.instructions:'),
    ('bmg_unk', 'C14', 'bmg.py', 'self.unk14, self.unk18, self.unk1C)\n\n        return', 'self.unk14, self.unk18, self.unk1C if self.messages else 0)\n\n        return'),
    ('bmg_null_text', 'C14', 'bmg.py', 'self.messages.append(Message(attribs, stringParts, offset == 0))', 'self.messages.append(Message(attribs, stringParts, not stringParts))'),
    ('bmg_fli_align', 'C15', 'bmg.py', 'while FLI1len % 32: FLI1len += 1', 'while FLI1len % 16: FLI1len += 1'),
    ('bmg_inf_len', 'C15', 'bmg.py', '        else:\n            inf1EntryLen = 4\n', '        else:\n            inf1EntryLen = 8\n'),
    ('bmg_total', 'C15', 'bmg.py', 'while totalLen % 32: totalLen += 1', 'while totalLen % 16: totalLen += 1'),
    # sequences
    ('seq_note_flag', 'C16', 'soundSequence.py', 'self.unknownFlag = bool(velocityAndFlag & 0x80)', 'self.unknownFlag = velocityAndFlag > 0x80'),
    ('seq_tracks_16', 'C16', 'soundSequence.py', '            if tracksBitfield & (1 << i):', '            if i < 15 and tracksBitfield & (1 << i):'),
    ('seq_varlen_limit', 'C16', 'soundSequence.py', 'if length > limit:', 'if length >= limit:'),
    ('seq_if_jump', 'C17', 'soundSequence.py', 'events[x].type == 0xA2', 'events[x].type == 0xA1'),
    ('seq_call_eot', 'C17', 'soundSequence.py', '                    elif fate == FATE_EOT:\n', '                    elif False:\n'),
    ('seq_total_len', 'C16', 'soundSequence.py', 'self._eventsData = file[dataOffs:totalFileLen]', 'self._eventsData = file[dataOffs:]'),
    ('seq_raw_join', 'C17', 'soundSequence.py', 'eventsList.append(RawDataSequenceEvent(data[i:j]))', 'eventsList.append(RawDataSequenceEvent(data[i:j].rstrip(b"\\0") or data[i:j]))'),
    ('seq_notable', 'C18', 'soundSequence.py', '    notableOffsets = [events2Offsets[e] for e in notableEvents]', '    notableOffsets = sorted(events2Offsets[e] for e in notableEvents)'),
    ('seq_parse_twice', 'C17', 'soundSequence.py', '        if self.parsed: return\n', ''),
    ('seq_size', 'C16', 'soundSequence.py', "b'DATA', len(file) - 0x10, 0x1C)", "b'DATA', len(seqEv) + 8, 0x1C)"),
    ('ssar_start_shared', 'C18', 'soundSequenceArchive.py', 'startOffs2Seq[seq.firstEventOffset].append(seq)', 'startOffs2Seq[seq.firstEventOffset] = [seq]'),
    ('ssar_zero_offset', 'C18', 'soundSequenceArchive.py', 'if seq.firstEventOffset not in [-1, None]:', 'if seq.firstEventOffset and seq.firstEventOffset != -1:'),
    ('ssar_names', 'C18', 'soundSequenceArchive.py', '[seqName for (seqName, seq) in self.sequences])', '[seqName or None for (seqName, seq) in self.sequences])'),
    ('ssar_filesize', 'C18', 'soundSequenceArchive.py', 'self.eventsData = file[dataOffset:filesize]', 'self.eventsData = file[dataOffset:]'),
    ('ssar_bank', 'C18', 'soundSequenceArchive.py', "struct.unpack_from('<iH4B', file, dataArrayPos)", "struct.unpack_from('<ih4B', file, dataArrayPos)"),
    ('ssar_no_sequences', 'C18', 'soundSequenceArchive.py', 'dataOffset = 0x20 + len(self.sequences) * 0xC', 'dataOffset = 0x20 + (len(self.sequences) or 1) * 0xC'),
    # sound banks, waves, streams
    ('sbnk_type_small', 'C19', 'soundBank.py', 'elif type < RANGE_INSTRUMENT_TYPE', 'elif type < 4'),
    ('sbnk_dedupe_type', 'C19', 'soundBank.py', '            mergeID = instrument.dataMergeOptimizationID\n', '            mergeID = 0\n'),
    ('sbnk_range_end', 'C19', 'soundBank.py', 'for i in range(lastPitch - firstPitch + 1)', 'for i in range((lastPitch - firstPitch + 1) & 0x7F)'),
    ('sbnk_region8', 'C19', 'soundBank.py', 'if len(self.regions) > 8:', 'if len(self.regions) > 7:'),
    ('sbnk_psg', 'C19', 'soundBank.py', 'if type in [1, 2, 3]: type = NoteType(type)', 'if type in [1, 2, 3, 4]: type = NoteType(min(type, 3))'),
    ('sbnk_order', 'C19', 'soundBank.py', '            inThisGroup.sort(key=lambda elem: elem[1].bankOrderKey)\n', ''),
    ('sbnk_inacc_none', 'C19', 'soundBank.py', '        if None in self.inaccessibleInstruments:', '        if False:'),
    ('sbnk_inacc_high', 'C19', 'soundBank.py', '            if inaccID < len(self.instruments): continue', '            continue'),
    ('sbnk_end_pad', 'C19', 'soundBank.py', '                and filesize - 3 not in unconsumedBytes):', '                ):'),
    ('sbnk_trailing_none', 'C19', 'soundBank.py', 'while self.waveArchiveIDs and self.waveArchiveIDs[-1] is None:', 'while self.waveArchiveIDs and not self.waveArchiveIDs[-1]:'),
    ('sbnk_datasize', 'C19', 'soundBank.py', "b'DATA', len(data) - 0x10, len(self.instruments))", "b'DATA', len(data), len(self.instruments))"),
    ('swav_total', 'C20', 'soundWave.py', 'self.totalLength = len(self.data) // 4', 'self.totalLength = len(self.data) // 2'),
    ('swav_time', 'C20', 'soundWave.py', 'int(16756991 / self.sampleRate)', 'int(16777216 / self.sampleRate)'),
    ('swav_filesize', 'C20', 'soundWave.py', 'self.data = file[0x24:filesize]', 'self.data = file[0x24:]'),
    ('swar_last', 'C20', 'soundWaveArchive.py', '                nextOffset = filesize', '                nextOffset = len(data)'),
    ('swar_loop_total', 'C20', 'soundWaveArchive.py', 'totalLength=loopOffset + totalLength)', 'totalLength=loopOffset + totalLength if loopFlag else totalLength)'),
    ('strm_time', 'C21', 'soundStream.py', '16756991 / 32', '16756991 / 64'),
    ('strm_one_block', 'C21', 'soundStream.py', 'if self.waveType == WaveType.ADPCM and numBlocks == 1:', 'if self.waveType == WaveType.ADPCM and numBlocks <= 1 and len(self.channels) > 1:'),
    ('strm_total_samples', 'C21', 'soundStream.py', '(numBlocks - 1) * self.samplesPerBlock + self.samplesInLastBlock', 'numBlocks * self.samplesPerBlock'),
    ('strm_last_block', 'C21', 'soundStream.py', 'if bn == numBlocks - 1:', 'if bn == numBlocks - 1 and bn:'),
    ('strm_pad', 'C21', 'soundStream.py', '            while offs % 4: offs += 1', '            if bn != numBlocks - 2:\n                while offs % 4: offs += 1'),
    ('strm_mismatch', 'C21', 'soundStream.py', 'bytesInLastBlock = len(self.channels[0][-1])', 'bytesInLastBlock = min(len(self.channels[0][-1]), bytesPerBlock)'),
    # sound archives
    ('sdat_names_utf8', 'C22', 'soundArchive.py', "symbol.encode('latin-1')", "symbol.encode('utf-8')"),
    ('sdat_short_symbols', 'C22', 'soundArchive.py', 'itertools.zip_longest(getInfoEntryOffsets(3),', 'zip(getInfoEntryOffsets(3),'),
    ('sdat_subsymbols', 'C22', 'soundArchive.py', '            anySymbolsInWholeFile |= anyActualSubsymbols\n', ''),
    ('sdat_merge_if', 'C23', 'soundArchive.py', '            while idx != -1:\n', '            if idx != -1:\n'),
    ('sdat_channel15', 'C22', 'soundArchive.py', '                for j in range(16):\n                    if j in channels', '                for j in range(15):\n                    if j in channels'),
    ('sdat_bank_gap', 'C22', 'soundArchive.py', 'swarIDs.append(-1 if s is None else s)', 'if s is not None: swarIDs.append(s)'),
    ('sdat_align_first', 'C23', 'soundArchive.py', '        if self.firstFileAlignment == self.fileAlignment:', '        if self.firstFileAlignment >= 0x20:'),
    ('sdat_pad_end', 'C23', 'soundArchive.py', 'if finalFileEnd == len(data) and finalFileEnd % self.fileAlignment != 0:', 'if finalFileEnd == len(data):'),
    ('sdat_group_none', 'C22', 'soundArchive.py', '            if group is None:\n', '            if not group:\n'),
    ('sdat_stream_player', 'C22', 'soundArchive.py', "channels.append(0xFF)", "channels.append(0xFF); chanCount = max(chanCount, 1)"),
    ('sdat_symb_size', 'C23', 'soundArchive.py', '            if self.padSymbSizeTo4InSDATHeader:\n', '            if True:\n'),
    ('sdat_group_type', 'C22', 'soundGroup.py', 'if self.loadSWAR: options |= 4', 'if self.loadSWAR and not self.loadSSAR: options |= 4'),
    ('sdat_strm_prio', 'C22', 'soundArchive.py', "fileID, unk02, volume, priority, playerID, unk07))", "fileID, unk02, volume, priority, playerID, unk07 & 0x7F))"),
    ('sdat_fat_len', 'C23', 'soundArchive.py', '                while fLen % self.fileAlignment: fLen += 1', '                while fLen % 0x20: fLen += 1'),
    ('sdat_nofile_merge', 'C22', 'soundArchive.py', '                if dataMergeOptimizationID == fileMergeIDs[idx]:', '                if dataMergeOptimizationID <= fileMergeIDs[idx]:'),
    # graphics
    ('gfx_vflip', 'C28', 'graphics2D.py', 'pixels = [pixels[(56 - (i - i % 8)) +      (i % 8) ] for i in range(64)]', 'pixels = [pixels[(56 - (i - i % 8)) +      (7 - i % 8) ] for i in range(64)]'),
    ('gfx_i4_high', 'C28', 'graphics2D.py', 'left = px & 0xF\n', 'left = px & 0x7\n'),
    ('gfx_offset', 'C28', 'graphics2D.py', 'tile.render(imageTiles, colors, tileNumOffset)', 'tile.render(imageTiles, colors)'),
    ('gfx_alpha', 'C28', 'graphics2D.py', 'colors2 = [(r, g, b, 1) for (r, g, b, a) in colors]', 'colors2 = [(r, g, b, a) for (r, g, b, a) in colors]'),
    ('gfx_image_pal', 'C28', 'graphics2D.py', '        renderImageTiles(tiles, colors, paletteNum, width),', '        renderImageTiles(tiles, colors, 0, width),'),
    ('gfx_tileat', 'C28', 'graphics2D.py', '    if x < 0 or y < 0: return None', '    if x < 0: return None'),
    ('gfx_tile_file', 'C25', 'graphics2D.py', 'return loadTilemapTiles(f.read(), format)', 'return loadTilemapTiles(f.read())'),
    ('tex_sizes', 'C29', 'texture.py', '1024: 7,', '1024: 6,'),
    ('tex_mode', 'C29', 'texture.py', '(self.coordsTransformationMode & 3) << 14', '(self.coordsTransformationMode & 1) << 14'),
    ('tex_alpha0', 'C29', 'texture.py', 'a = (a << 2) | (a >> 1)', 'a = a << 2'),
    ('tex_pal_len', 'C29', 'texture.py', "len(palettesData) >> 3, fields['unk32']", "min(len(palettesData) >> 3, 0xFF), fields['unk32']"),
    ('tex_texel_alpha', 'C29', 'texture.py', 'if interpMode < 2:', 'if interpMode < 1:'),
    ('tex_i2_last', 'C29', 'texture.py', 'value3 = value >> 6', 'value3 = (value >> 6) & 1'),
    ('tex_names16', 'C29', '_common.py', "e[0].encode('latin-1').ljust(16, b'\\0')", "e[0].encode('latin-1')[:15].ljust(16, b'\\0')"),
    ('img_alpha5', 'C29', '_common.py', 'a255 = a << 3 | a >> 2', 'a255 = a << 3'),
    ('img_order', 'C28', '_common.py', 'rgba = (a255 << 24) | (b255 << 16) | (g255 << 8) | r255', 'rgba = (a255 << 24) | (r255 << 16) | (g255 << 8) | b255'),
    ('layout_center', 'C30', '_common.py', 'y -= (height + 1) // 2', 'y -= height // 2'),
    ('layout_unk', 'C30', 'bncl.py', "struct.pack('<4sHH', b'JNCL', self.unk04,", "struct.pack('<4sHH', b'JNCL', self.unk04 & 0xFF,"),
    ('color_lut', 'C33', 'color.py', 'LUT_BGRA_255[i] = (b255 << 24) | (g255 << 16) | (r255 << 8) | a255', 'LUT_BGRA_255[i] = (b255 << 24) | (g255 << 16) | (r255 << 8) | a'),
    ('color_a5', 'C33', 'color.py', '| ((1 if x[3] >= 0x10 else 0) << 15))', '| ((1 if x[3] > 0x10 else 0) << 15))'),
    ('color_pack_a', 'C33', 'color.py', '| ((a & 1) << 15))', '| ((a > 1) << 15))'),
    # music
    ('music_velocity', 'C31', 'extras/music.py', 'newVelocity = min(max(newVelocity, 0), 127)', 'newVelocity = min(max(newVelocity, 1), 127)'),
    ('music_mono', 'C31', 'extras/music.py', '        if isinstance(e, soundSequence.MonoPolySequenceEvent):\n            monoPolyMode = e.value\n\n        if newElapsedTime == target:', '        if newElapsedTime == target:'),
    ('music_looptrail', 'C31', 'extras/music.py', 'self.events = self.events[:loopEndIdx + 1]', 'self.events = self.events[:loopEndIdx]'),
    ('music_replace', 'C31', 'extras/music.py', "        if 'replace' in log[idx]:\n            events[idx] = log[idx]['replace']\n        elif log[idx].get('delete', False):", "        if log[idx].get('delete', False):\n            del events[idx]\n        elif 'replace' in log[idx]:\n            events[idx] = log[idx]['replace']\n        elif log[idx].get('delete', False):"),
    ('music_initial', 'C31', 'extras/music.py', "                elif (isinstance(e, soundSequence.NoteSequenceEvent)\n                        or isinstance(e, soundSequence.RestSequenceEvent)):\n                    break", "                elif isinstance(e, soundSequence.NoteSequenceEvent):\n                    break"),
    ('music_append', 'C31', 'extras/music.py', 'newRest = soundSequence.RestSequenceEvent(target - elapsedTime)', 'newRest = soundSequence.RestSequenceEvent(target)'),
    ('music_collapse', 'C31', 'extras/music.py', 'for i, id in enumerate(sorted(self.tracks.keys())):', 'for i, id in enumerate(self.tracks.keys()):'),
    ('music_region', 'C31', 'extras/music.py', 'for i in range(low, reg.lastPitch + 1):', 'for i in range(low, reg.lastPitch):'),
    ('music_single_track', 'C31', 'extras/music.py', 'if len(self.tracks) == 1 and 0 in self.tracks:', 'if len(self.tracks) == 1:'),
    ('music_tempo', 'C31', 'extras/music.py', '                self.events.remove(event)', '                self.events.pop(0)'),
    # named lists
    ('named_last', 'C27', '__init__.py', 'for i, (nameN, entry) in enumerate(L):', 'for i, (nameN, entry) in reversed(list(enumerate(L))):'),
    ('named_tuple', 'C27', '__init__.py', 'L[indexInNamedList(L, name)] = (name, value)', 'L[indexInNamedList(L, name)] = [name, value]'),
    # text
    ('text_repr_group', 'C32', 'soundGroup.py', "            args.append(f'loadSWAR={self.loadSWAR!r}')", "            args.append(f'loadSSAR={self.loadSWAR!r}')"),
    ('text_narc', 'C32', 'narc.py', 'self.filenames._strList(0, self.files)', 'self.filenames._strList(0, self.files)[:20]'),
    ('text_seq', 'C32', 'soundSequence.py', "linesList.append(printSequenceEventList(self.events, {}, ' ' * 2))", "linesList.append(printSequenceEventList(self.events[:64], {}, ' ' * 2))"),
    # sharing
    ('share_default', 'C24', 'fnt.py', '        else:\n            self.files = []', '        else:\n            self.files = _common.EMPTY'),
    ('share_swav', 'C24', 'soundWaveArchive.py', '        self.waves = []\n\n', '        self.waves = self._waves\n\n'),
    ('save_mutates', 'C24', 'soundStreamPlayer.py', 'return list(self.channels)', 'return self.channels'),
    ('rom_sig_len', 'C10', 'rom.py', 'realSigOffset + 0x88)', 'realSigOffset + 0x80)'),
    ('rom_post8', 'C10', 'rom.py', 'arm9PostDataOffset:arm9PostDataOffset+12]', 'arm9PostDataOffset:arm9PostDataOffset+8].ljust(12, b"\\0")'),
    ('rom_name_cache', 'C13', 'rom.py', '        fid = self.filenames.idOf(filename)\n        if fid is None:\n            raise ValueError(f\'Cannot find file ID of "{filename}"\')\n        return',
        '        cache = self.__dict__.setdefault("_fids", {})\n        if filename not in cache: cache[filename] = self.filenames.idOf(filename)\n        fid = cache[filename]\n        if fid is None:\n            raise ValueError(f\'Cannot find file ID of "{filename}"\')\n        return'),
    ('rom_sorted_grow', 'C24', 'rom.py', '            fileOffsets[fileNum] = len(data)\n            data.extend(self.files[fileNum])\n', '            fileOffsets[fileNum] = len(data)\n            data.extend(self.files[fileNum])\n            if fileNum not in self.sortedFileIds: self.sortedFileIds.append(fileNum)\n'),
    ('rom_names_no_files', 'C10', 'rom.py', '        if fnt:\n', '        if fnt and fat:\n'),
    ('rom_logo_crc', 'C11', 'rom.py', 'write16(_common.crc16(self.nintendoLogo))', 'write16(0xCF56)'),
    ('rom_name11', 'C10', 'rom.py', "self.name.ljust(12, b'\\0')[:12]", "self.name.ljust(12, b'\\0')[:11] + b'\\0'"),
    ('rom_arm7_ovl_align', 'C11', 'rom.py', "            data.extend(self.files[fileId])\n            align(0x200, b'\\xFF')\n\n        # Pack the filename", "            data.extend(self.files[fileId])\n            align(0x100, b'\\xFF')\n\n        # Pack the filename"),
    ('rom_memoryview', 'C10', 'rom.py', 'self.files.append(data[startOffset:endOffset])', 'self.files.append(memoryview(data)[startOffset:endOffset])'),
    ('rom_capacity_keep', 'C11', 'rom.py', '            self.deviceCapacity = \\\n                max(0, math.ceil(math.log2(len(data))) - 17)', '            self.deviceCapacity = \\\n                max(0, len(data).bit_length() - 17)'),
    ('rom_overlay_dupe_file', 'C11', 'rom.py', '            fileOffsets[fileId] = len(data)\n            data.extend(self.files[fileId])', '            fileOffsets[fileId] = len(data)\n            data.extend(self.files[fileId].rstrip(b"\\xFF"))'),
    ('rom_secure_disable', 'C10', 'rom.py', "self.secureAreaDisable.ljust(8, b'\\0')", "self.secureAreaDisable.rstrip(b'\\0').rjust(8, b'\\0')"),
    ('rom_set_append', 'C13', 'rom.py', '        self.files[fid] = data\n', '        self.files[fid] = data\n        if fid not in self.sortedFileIds: self.sortedFileIds.insert(0, fid)\n'),
    ('rom_pad200_strip', 'C12', 'rom.py', 'data.extend(self.pad200)\n', "data.extend(self.pad200.rstrip(b'\\0'))\n"),
    ('rom_short', 'C10', 'rom.py', "data.extend(b'\\0' * (0x200 - len(data)))", "data.extend(b'\\0' * (0x200 - len(data) & 0xFF00))"),
    ('rom_offset_big', 'C11', 'rom.py', 'write32(fntOffset)', 'write32(fntOffset & 0xFFFFF)'),
    ('rom_banner_trunc', 'C10', 'rom.py', 'data[iconBannerOffset : iconBannerOffset + iconBannerLen]', 'data[iconBannerOffset : min(iconBannerOffset + iconBannerLen, arm9Offset + 0x100000)]'),
    ('code_first_match', 'C05', 'code.py', '                    match = data.index(expectedTableEndBytes, match + 1)', '                    match = None'),
    ('code_cso_end', 'C05', 'code.py', 'self.codeSettingsOffs <= len(data) - 0x18', 'self.codeSettingsOffs <= len(data) - 0x24'),
    ('code_ovl_flagbits', 'C06', 'code.py', 'compressedSize_Flags >> 24)', '(compressedSize_Flags >> 24) & 3)'),
    ('code_ovl_auto', 'C06', 'code.py', '        self.compressed = compress\n', '        self.compressed = compress and len(data) < len(self.data)\n'),
    ('code_ovl_table_len', 'C06', 'code.py', 'values.append(ov.ramSize) ', 'values.append(len(ov.data)) '),
    ('code_ovl_cb_index', 'C06', 'code.py', 'fileCallback(ovID, fileID)', 'fileCallback(i // 32, fileID)'),
    ('code_ovl_zero_comp', 'C06', 'code.py', '        if self.compressed:\n            self.data = bytearray(c', '        if self.compressed and self.compressedSize:\n            self.data = bytearray(c'),
    ('code_ovl_big', 'C06', 'code.py', 'ov.compressedSize | ov.flags << 24', '(ov.compressedSize & 0xFFFF) | ov.flags << 24'),
    ('code_pointer_minus4', 'C05', 'code.py', "codeSettingsPointerAddress - ramAddress - 4)", "max(codeSettingsPointerAddress - ramAddress - 4, 0))"),
    ('code_pointer_neg', 'C05', 'code.py', 'assert 0 <= self.codeSettingsOffs', 'assert -len(data) <= self.codeSettingsOffs'),
    ('code_compressed_end', 'C05', 'code.py', 'setInt(cso + 0x14, self.ramAddress + len(data))', 'setInt(cso + 0x14, self.ramAddress + ((len(data) + 0xF) & ~0xF))'),
    ('code_mod12', 'C05', 'code.py', '% 12 == 0\n', '% 4 == 0\n'),
    ('code_empty_first', 'C05', 'code.py', '            if len(s.data) != 0: continue\n', '            if len(s.data) != 0 or not s.bssSize: continue\n'),
    ('code_ovl_alias', 'C24', 'code.py', '            self.data = bytearray(data)\n\n\n    @property', '            self.data = data if isinstance(data, bytearray) else bytearray(data)\n\n\n    @property'),
    ('code_sec_alias', 'C05', 'code.py', '            self.data = bytearray(data)\n            self.ramAddress', '            self.data = data if isinstance(data, bytearray) else bytearray(data)\n            self.ramAddress'),
    ('blz_len24', 'C03', 'codeCompression.py', "struct.pack_into('<I', compressed, ptr, actualCompLen + headerLen)", "struct.pack_into('<I', compressed, ptr, (actualCompLen + headerLen) & 0xFFFF)"),
    ('blz_disp', 'C04', 'codeCompression.py', 'disp = (((byte1 & 0x0F) << 8) | byte2) + 3', 'disp = (((byte1 & 0x0F) << 8) + byte2 + 3) & 0xFFF or 0x1000'),
    ('blz_appended_lost', 'C04', 'codeCompression.py', 'passthroughData + decompData + appendedData', 'passthroughData + decompData + (appendedData if len(appendedData) <= 12 else appendedData[:12])'),
    ('blz_in_place', 'C04', 'codeCompression.py', '        data = data[:-appendedDataAmount]\n', '        if isinstance(data, bytearray): del data[-appendedDataAmount:]\n        else: data = data[:-appendedDataAmount]\n'),
    ('blz_arm9_big', 'C03', 'codeCompression.py', 'prefix = data[:0x4000]\n        data = data[0x4000:]', 'prefix = data[:0x4000] if len(data) > 0x4000 else data[:0x800]\n        data = data[len(prefix):]'),
    ('blz_raw_pad', 'C03', 'codeCompression.py', '            compressed.append(0)\n\n        for i in range(4):', '            compressed.append(0xFF)\n\n        for i in range(4):'),
    ('lz_long_chain', 'C01', '_lzCommon.py', 'upper = min(maxMatchLen, len(data) - pos)', 'upper = min(maxMatchLen + (pos > 0x20000), len(data) - pos)'),
    ('fnt_table_cache', 'C07', ('fnt.py', '        off = entriesTableOff\n\n', '        off = entriesTableOff\n        if off in seen: return seen[off]\n        seen[off] = folderObj\n\n'), ('fnt.py', '    def loadFolder(folderId: int)', '    seen = {}\n    def loadFolder(folderId: int)')),
    ('fnt_strip', 'C07', 'fnt.py', "fnt[off : off+len_].decode('latin-1')", "fnt[off : off+len_].decode('latin-1').strip()"),
    ('fnt_first_15', 'C07', 'fnt.py', 'folderObj.firstID = fileID', 'folderObj.firstID = fileID & 0x7FFF'),
    ('fnt_parent_16', 'C07', 'fnt.py', '            len(fnt), fileID, parentID)', '            len(fnt), fileID, parentID & 0xF0FF)'),
    ('fnt_offset_16', 'C07', 'fnt.py', '            len(fnt), fileID, parentID)', '            len(fnt) & 0xFFFF, fileID, parentID)'),
    ('fnt_dot', 'C08', 'fnt.py', "        pathList = path.split('/')\n", "        pathList = path.replace('./', '').split('/')\n"),
    ('fnt_backslash', 'C08', 'fnt.py', "        pathList = path.split('/')\n", "        pathList = path.replace('\\\\', '/').split('/')\n"),
    ('fnt_bool_key', 'C08', 'fnt.py', 'if isinstance(key, int):', 'if type(key) is int and key:'),
    ('fnt_name_cache', 'C08', 'fnt.py', '        result = findInFolder([], self)\n', "        cache = self.__dict__.setdefault('_names', {})\n        if id not in cache: cache[id] = findInFolder([], self)\n        result = cache[id]\n"),
    ('fnt_id_cache', 'C08', 'fnt.py', '        if not pathList: return None\n        return findInFolder(pathList, self)\n\n\n    def subfolder', "        if not pathList: return None\n        cache = self.__dict__.setdefault('_ids', {})\n        key = '/'.join(pathList)\n        if key not in cache: cache[key] = findInFolder(pathList, self)\n        return cache[key]\n\n\n    def subfolder"),
    ('narc_gap', 'C09', 'narc.py', '[rawDataOffset+startOffset : rawDataOffset+endOffset]', '[rawDataOffset+(startOffset & ~3) : rawDataOffset+endOffset]'),
    ('narc_dedupe', 'C09', 'narc.py', '            startOff = len(fimgData) - 8\n            fimgData.extend(fd)\n', '            startOff = fimgData.find(fd, 8) - 8 if fd else -1\n            if startOff < 0:\n                startOff = len(fimgData) - 8\n                fimgData.extend(fd)\n'),
    ('narc_alias', 'C24', 'narc.py', "        return bytes(data)\n", "        self._saved = getattr(self, '_saved', None) or bytes(data)\n        return self._saved\n"),
    ('narc_save_pads', 'C24', 'narc.py', '            fimgData.extend(fd)\n', "            fimgData.extend(fd)\n            if isinstance(fd, bytearray): fd.extend(bytes(-len(fd) % 4))\n"),
    ('bmg_id_sign', 'C14', 'bmg.py', "struct.unpack_from(se + 'HHI', data, offset + 8)\n\n            for", "struct.unpack_from(se + 'HHi', data, offset + 8)\n\n            for"),
    ('bmg_count_sign', 'C14', 'bmg.py', "'4sIHHI', INF1, 0", "'4sIhHI', INF1, 0"),
    ('bmg_script_sign', 'C14', 'bmg.py', "struct.unpack_from(se + 'IHxx'", "struct.unpack_from(se + 'Ihxx'"),
    ('bmg_dat_first', 'C15', 'bmg.py', '            nonlocal DAT1\n', '            nonlocal DAT1\n            if not INF1: return\n'),
    ('bmg_even_escape', 'C14', 'bmg.py', '                    offset += escapeLen\n', '                    offset += escapeLen + (escapeLen & 1 if len(nullChar) == 2 else 0)\n'),
    ('bmg_escape_min', 'C14', 'bmg.py', '                    stringParts.append(Message.Escape(escapeType, escapeData))\n', '                    if escapeType or escapeData: stringParts.append(Message.Escape(escapeType, escapeData))\n'),
    ('bmg_dat_bound', 'C14', 'bmg.py', 'DAT1 = data[offset + 8 : offset + length]', 'DAT1 = data[offset + 8 : offset + (length & 0xFFFF)]'),
    ('bmg_entry_len', 'C14', 'bmg.py', 'data[thingOff + 4 : thingOff + entryLength]', 'data[thingOff + 4 : thingOff + min(entryLength, 20)]'),
    ('bmg_empty_start', 'C15', 'bmg.py', 'offset = 0 if message.isNull else', 'offset = 0 if message.isNull or not message.stringParts else'),
    ('bmg_share_text', 'C15', 'bmg.py', "                DAT1.extend(message.save(self.fullEncoding))\n", "                text = message.save(self.fullEncoding)\n                found = DAT1.find(text, 10)\n                if found > 0: struct.pack_into(se + 'I', INF1, len(INF1) - inf1EntryLen, found - 8)\n                else: DAT1.extend(text)\n"),
    ('bmg_flw_unk', 'C14', 'bmg.py', "struct.pack(se + 'IHxx', id, startIndex)", "struct.pack(se + 'IHxx', id & 0xFFFFFF, startIndex)"),
    ('bmg_sjis_errors', 'C35', 'bmg.py', 'data.extend(part.encode(encoding))', "data.extend(part.encode(encoding, 'replace'))"),
    ('bmg_normalise', 'C14', 'bmg.py', 'data.extend(part.encode(encoding))', "data.extend(part.replace('\\r\\n', '\\n').encode(encoding))"),
    ('bmg_inst_save', 'C14', 'bmg.py', "if hasattr(inst, 'save'):", "if False:"),
    ('bmg_first_info', 'C14', 'bmg.py', 'inf1EntryLen = 4 + len(self.messages[0].info)', 'inf1EntryLen = 4 + max(4, len(self.messages[0].info))'),
    ('bmg_save_joins', 'C24', 'bmg.py', '        if self.isNull: return b\'\'\n\n', "        if self.isNull: return b''\n\n        self.stringParts = [p for p in self.stringParts if p != '']\n"),
    ('bmg_bom', 'C14', 'bmg.py', ".decode(self.fullEncoding))\n\n            self.messages", ".decode(self.fullEncoding).lstrip('\\ufeff'))\n\n            self.messages"),
 # sound archives
 ('sdat_merge_eq', 'C23', 'soundArchive.py', '            idx = _common.listFind(files, file)\n', '            idx = _common.listFind([f[:0x100] for f in files], file[:0x100])\n'),
 ('sdat_merge_len', 'C22', 'soundArchive.py', '            idx = _common.listFind(files, file)\n', '            idx = next((i for i, f in enumerate(files) if len(f) == len(file) and f[:0x20] == file[:0x20]), -1)\n'),
 ('sdat_name_dedupe', 'C23', 'soundArchive.py', "            offset = len(symbolsStringTable)\n", "            offset = symbolsStringTable.find(symbol.encode('latin-1') + b'\\0')\n            if offset != -1: return offset\n            offset = len(symbolsStringTable)\n"),
 ('sdat_name_empty', 'C22', 'soundArchive.py', "            if symbol is None:\n                return -1", "            if not symbol:\n                return -1"),
 ('sdat_name_strip', 'C22', 'soundArchive.py', "            symbolsStringTable.extend(symbol.encode('latin-1') + b'\\0')", "            symbolsStringTable.extend(symbol.rstrip().encode('latin-1') + b'\\0')"),
 ('sdat_name_127', 'C22', 'soundArchive.py', "            symbolsStringTable.extend(symbol.encode('latin-1') + b'\\0')", "            symbolsStringTable.extend(symbol.encode('latin-1')[:127] + b'\\0')"),
 ('sdat_symb_16', 'C22', 'soundArchive.py', "value += symbolsTableLen + 0x40", "value += (symbolsTableLen & 0xFFF) + 0x40"),
 ('sdat_symb_64k', 'C22', 'soundArchive.py', "            offset = len(symbolsStringTable)\n", "            offset = len(symbolsStringTable) & 0xFFFF\n"),
 ('sdat_file_ids_255', 'C22', 'soundArchive.py', "            return len(files) - 1", "            return (len(files) - 1) & 0xFF"),
 ('sdat_files_limit', 'C22', 'soundArchive.py', "            files.append(file)\n            fileMergeIDs", "            if len(files) < 1000: files.append(file)\n            fileMergeIDs"),
 ('sdat_group_255', 'C22', 'soundArchive.py', "data.extend(struct.pack('<I', len(group)))", "data.extend(struct.pack('<B3x', len(group) & 0xFF))"),
 ('sdat_group_id', 'C22', 'soundArchive.py', "data.extend(struct.pack('<BHxI', *gEntry.save()))", "t, o, d = gEntry.save(); data.extend(struct.pack('<BHxI', t, o, d & 0xFFFF))"),
 ('sdat_group_none_load', 'C22', 'soundArchive.py', "            if groupOff is None:\n                entries = None", "            if groupOff is None:\n                entries = []"),
 ('sdat_heap', 'C22', 'soundArchive.py', "data.extend(struct.pack('<HHI',\n                    maxSequences, channelMask, heapSize))", "data.extend(struct.pack('<HHI',\n                    maxSequences, channelMask, heapSize & 0xFFFFFF))"),
 ('sdat_player_chan', 'C22', 'soundArchive.py', "                for i in range(16):\n                    if (channelMask >> i) & 1:\n                        channels.add(i)", "                for i in range(16):\n                    if (channelMask >> i) & 1 or channelMask == 0:\n                        channels.add(i)"),
 ('sdat_player_all', 'C22', 'soundArchive.py', "                channelMask = 0\n", "                channelMask = 0\n                if not channels: channels = set(range(16))\n"),
 ('sdat_sp_ff', 'C22', 'soundArchive.py', "                sp = soundStreamPlayer.StreamPlayer(channels)", "                sp = soundStreamPlayer.StreamPlayer([c for c in channels if c != 0xFF])"),
 ('sdat_swar_h', 'C22', 'soundArchive.py', "swarIDs = struct.unpack_from('<4h', data, entryOff + 4)", "swarIDs = struct.unpack_from('<4b', data, entryOff + 4)"),
 ('sdat_swar_zero', 'C22', 'soundArchive.py', "swarIDs.append(-1 if s is None else s)", "swarIDs.append(s or -1)"),
 ('sdat_strm_extra', 'C22', 'soundArchive.py', "                strm = soundStream.STRM(files[fileID], unk02, volume, priority, playerID, unk07)", "                strm = soundStream.STRM(files[fileID], unk02, volume, priority, playerID)"),
 ('sdat_seq_pan', 'C22', 'soundArchive.py', "                            volume, channelPressure, polyphonicPressure, playerID)\n                sseq.dataMerge", "                            volume, polyphonicPressure, channelPressure, playerID)\n                sseq.dataMerge"),
 ('sdat_seq_cache', 'C24', ('soundArchive.py', "                sseq = soundSequence.SSEQ(files[fileID], unk02, bankID,\n                            volume, channelPressure, polyphonicPressure, playerID)\n", "                sseq = cache.get((fileID, bankID)) or soundSequence.SSEQ(files[fileID], unk02, bankID,\n                            volume, channelPressure, polyphonicPressure, playerID)\n                cache[fileID, bankID] = sseq\n"), ('soundArchive.py', "        # Info part 0: SSEQ (references SBNK)\n", "        # Info part 0: SSEQ (references SBNK)\n        cache = {}\n")),
 ('sdat_swar_cache', 'C22', ('soundArchive.py', "                swar = soundWaveArchive.SWAR(files[fileID], unk02)\n", "                swar = cache.get(fileID) or soundWaveArchive.SWAR(files[fileID], unk02)\n                cache[fileID] = swar\n"), ('soundArchive.py', "        # Info part 3: SWAR\n", "        # Info part 3: SWAR\n        cache = {}\n")),
 ('sdat_align_last', 'C23', 'soundArchive.py', "            if fileOffset % 0x200 == 0x100:", "            if fileOffset % 0x200 == 0x100 and i:"),
 ('sdat_align_cap', 'C23', 'soundArchive.py', "        self.fileAlignment = 0x200\n        self.fatLengthsIncludePadding = True\n", "        self.fileAlignment = 0x100\n        self.fatLengthsIncludePadding = True\n"),
 ('sdat_align_odd', 'C23', 'soundArchive.py', "                self.fileAlignment = min(self.fileAlignment, 2)", "                self.fileAlignment = min(self.fileAlignment, 4)"),
 ('sdat_fat_sorted', 'C22', 'soundArchive.py', "            file = data[fileOffset : fileOffset + fileSize]\n", "            file = data[fileOffset : fileOffset + min(fileSize, 0x10000)]\n"),
 ('sdat_stale_merge', 'C23', 'soundArchive.py', "            fileMergeIDs.append(dataMergeOptimizationID)\n            return", "            fileMergeIDs.append(dataMergeOptimizationID or len(files))\n            return"),
 ('sdat_sub_none', 'C22', 'soundArchive.py', "                        subNames = [n for (n, s) in entry.sequences]", "                        subNames = [n for (n, s) in entry.sequences if n is not None]"),
 ('sdat_sub_shared', 'C22', 'soundArchive.py', "                subSymb = symb[1] if symb is not None else None", "                subSymb = symb[1] if symb is not None and symb[0] is not None else None"),
 ('sdat_last_string', 'C23', 'soundArchive.py', "                    lastEndOfString = symbolOff + len(thisSymbol) + 1", "                    lastEndOfString = symbolOff + len(thisSymbol)"),
 ('sdat_save_merge_ids', 'C24', 'soundArchive.py', "                fileID = addFileAndGetID(file, swar.dataMergeOptimizationID)\n", "                fileID = addFileAndGetID(file, swar.dataMergeOptimizationID)\n                swar.dataMergeOptimizationID = fileID\n"),
 # banks
 ('sbnk_duty8', 'C19', 'soundBank.py', "        self.waveID = waveID_dutyCycle\n", "        self.waveID = waveID_dutyCycle & 7 if type == 2 else waveID_dutyCycle\n"),
 ('sbnk_white_wave', 'C19', 'soundBank.py', "        return struct.pack('<HH6B', self.waveID, self", "        return struct.pack('<HH6B', 0 if self.type == 3 else self.waveID, self"),
 ('sbnk_region_zero', 'C19', 'soundBank.py', "            if e == 0 and off != startOffset + 8: break", "            if e == 0: break"),
 ('sbnk_region_127', 'C19', 'soundBank.py', "            regions.append(cls.Region(e, note))\n", "            regions.append(cls.Region(e, note))\n            if e >= 127: break\n"),
 ('sbnk_region_sorted', 'C19', 'soundBank.py', "        for i, region in enumerate(self.regions):\n            data[i]", "        for i, region in enumerate(sorted(self.regions, key=lambda r: r.lastPitch)):\n            data[i]"),
 ('sbnk_save_orderkey', 'C24', 'soundBank.py', "            for i, instrument in inThisGroup:\n", "            for i, instrument in inThisGroup:\n                instrument.bankOrderKey = i\n"),
 ('sbnk_same_object', 'C19', 'soundBank.py', "                indexToOffset[i] = addInstrument(instrument)\n", "                indexToOffset[self.instruments.index(instrument)] = addInstrument(instrument)\n"),
 ('sbnk_load_shared', 'C24', 'soundBank.py', "            instrument = makeInstrumentAt(instrumentType, instrumentOffset)\n", "            same = [j for j, o in idsToOffsets.items() if o == instrumentOffset and self.instruments[j].type == instrumentType]\n            instrument = self.instruments[same[0]] if same else makeInstrumentAt(instrumentType, instrumentOffset)\n"),
 ('sbnk_load_shared_type', 'C19', 'soundBank.py', "            instrument = makeInstrumentAt(instrumentType, instrumentOffset)\n", "            same = [j for j, o in idsToOffsets.items() if o == instrumentOffset]\n            instrument = makeInstrumentAt(self.instruments[same[0]].type if same and instrumentType else instrumentType, instrumentOffset)\n"),
 ('sbnk_cache_nomerge', 'C19', 'soundBank.py', "            if (instrumentData, mergeID) not in dataReuseCache:", "            if (instrumentData, mergeID) not in dataReuseCache or not instrumentType & 1:"),
 ('sbnk_key_only', 'C19', 'soundBank.py', "            mergeID = instrument.dataMergeOptimizationID\n", "            mergeID = instrument.dataMergeOptimizationID\n            if mergeID: instrumentData, realData = b'', instrumentData\n            else: realData = instrumentData\n"),
 ('sbnk_many', 'C19', 'soundBank.py', "        for id in range(instrumentCount):\n", "        for id in range(min(instrumentCount, 128)):\n"),
 ('sbnk_many256', 'C19', 'soundBank.py', "        for id in range(instrumentCount):\n", "        for id in range(min(instrumentCount, 256)):\n"),
 ('sbnk_pan', 'C19', 'soundBank.py', "            self.release, self.pan)\n\n\n    def saveWithType", "            self.release, self.pan & 0x7F)\n\n\n    def saveWithType"),
 ('sbnk_swar_pad', 'C19', 'soundBank.py', "        return (data, self.unk02, list(self.waveArchiveIDs))", "        return (data, self.unk02, (list(self.waveArchiveIDs) + [None] * 4)[:4])"),
 ('sbnk_unk', 'C19', 'soundBank.py', "        obj = cls(unk02=unk02, waveArchiveIDs=waveArchiveIDs)", "        obj = cls(waveArchiveIDs=waveArchiveIDs)"),
 # streams and waves
 ('strm_block_64k', 'C21', 'soundStream.py', "            blockSize = bytesPerBlock\n", "            blockSize = bytesPerBlock & 0xFFFF\n"),
 ('strm_adpcm_any', 'C21', 'soundStream.py', "numBlocks == 1 and waveType == WaveType.ADPCM)", "numBlocks == 1 and waveType == WaveType.ADPCM and bytesInLastBlock)"),
 ('strm_channels3', 'C21', 'soundStream.py', "        for _ in range(numChannels):\n", "        for _ in range(min(numChannels, 2)):\n"),
 ('strm_looped_int', 'C21', 'soundStream.py', "self.waveType, self.isLooped, len(self.channels)", "self.waveType, self.isLooped and self.loopOffset > 0, len(self.channels)"),
 ('strm_trim', 'C21', 'soundStream.py', "        data = file[dataOffs + 8 : dataOffs + dataSize]\n", "        data = file[dataOffs + 8 : dataOffs + dataSize].rstrip(b'\\0')\n"),
 ('strm_same_block', 'C21', 'soundStream.py', "                    for j, b in enumerate(blocks[:-1]): # ignore", "                    for j, b in enumerate(blocks[:-2]): # ignore"),
 ('strm_check_first', 'C21', 'soundStream.py', "                for i, blocks in enumerate(self.channels):\n                    for j", "                for i, blocks in enumerate(self.channels[:1]):\n                    for j"),
 ('strm_rate', 'C21', 'soundStream.py', "            self.sampleRate, self.time,\n            self.loopOffset,\n            (numBlocks", "            self.sampleRate, self.time,\n            self.loopOffset if self.isLooped else 0,\n            (numBlocks"),
 ('strm_time_stored', 'C21', 'soundStream.py', "        if updateTime:\n", "        if updateTime or not self.time:\n"),
 ('strm_pad_blocks', 'C24', 'soundStream.py', "                    for j, b in enumerate(blocks[:-1]): # ignore last block\n", "                    if isinstance(blocks[-1], bytearray):\n                        while len(blocks[-1]) % 4: blocks[-1].append(0)\n                    for j, b in enumerate(blocks[:-1]): # ignore last block\n"),
 ('swav_loop_eq', 'C20', 'soundWave.py', "if self.loopOffset > self.totalLength:", "if self.loopOffset >= self.totalLength and self.isLooped:"),
 ('swav_odd', 'C20', 'soundWave.py', "        data.extend(self.data)\n        return", "        data.extend(self.data)\n        if len(self.data) > 0x8000: data.extend(bytes(-len(data) % 4))\n        return"),
 ('swav_long', 'C20', 'soundWave.py', "            '<B?3HI', self.waveType, self.isLooped, self.sampleRate, self.time,\n            self.loopOffset, self.totalLength - self.loopOffset))", "            '<B?3HI', self.waveType, self.isLooped, self.sampleRate, self.time,\n            self.loopOffset, (self.totalLength - self.loopOffset) & 0xFFFFFF))"),
 ('swav_time_stale', 'C20', 'soundWave.py', "        if updateTime:\n", "        if updateTime and not self.time:\n"),
 ('swav_total_neg', 'C20', 'soundWave.py', "        if updateTotalLength:\n", "        if updateTotalLength and self.data:\n"),
 ('swar_dedupe', 'C20', 'soundWaveArchive.py', "            swavsTable.extend(swavData)\n", "            if swavData in seen: offsets[-1] = offsets[seen.index(swavData)]\n            else: swavsTable.extend(swavData)\n            seen.append(swavData)\n"),
 ('swar_next', 'C20', 'soundWaveArchive.py', "            swavData = data[swavOffset:nextOffset]\n", "            swavData = data[swavOffset:max(nextOffset, swavOffset + 0x10)]\n"),
 ('swar_offset16', 'C20', 'soundWaveArchive.py', "            offsets.append(0x3C + lenOffsetsTable + len(swavsTable))", "            offsets.append(0x3C + lenOffsetsTable + len(swavsTable) & 0xFFFF)"),
 ('swar_count256', 'C20', 'soundWaveArchive.py', "        for i in range(swavCount):\n", "        for i in range(swavCount & 0xFF if swavCount != 256 else 256):\n"),
 # sequence archives
 ('ssar_event_eq', 'C18', 'soundSequenceArchive.py', "                    off = startOffs[startEvents.index(seq2StartEvent[seq])]", "                    off = startOffs[[repr(e) for e in startEvents].index(repr(seq2StartEvent[seq]))]"),
 ('ssar_same_seq', 'C18', 'soundSequenceArchive.py', "        for seqName, seq in self.sequences:\n                if seq in seq2StartEvent:", "        for seqName, seq in dict(self.sequences).items():\n                if seq in seq2StartEvent:"),
 ('ssar_names_long', 'C18', 'soundSequenceArchive.py', "            while len(names) < dataCount:\n", "            if len(names) > dataCount: names = [None] * dataCount\n            while len(names) < dataCount:\n"),
 ('ssar_volume', 'C18', 'soundSequenceArchive.py', "                 channelPressure=64, polyphonicPressure=50, playerID=0,\n                 *, parsed=True):\n", "                 channelPressure=64, polyphonicPressure=50, playerID=0,\n                 *, parsed=True):\n        volume = volume or 127\n"),
 ('ssar_reparse', 'C18', 'soundSequenceArchive.py', "        if self.parsed: return\n", ""),
 ('ssar_parsed_first', 'C18', 'soundSequenceArchive.py', "        self._initFromData(self._eventsData)\n        self.parsed = True\n", "        self.parsed = True\n        self._initFromData(self._eventsData)\n"),
 ('ssar_header16', 'C18', 'soundSequenceArchive.py', "b'DATA', fileLen - 0x10, dataOffset, len(self.sequences)))", "b'DATA', fileLen - 0x10, dataOffset & 0xFFFF, len(self.sequences)))"),
 ('ssar_feo', 'C18', 'soundSequenceArchive.py', "                feo = seq.firstEventOffset\n", "                feo = seq.firstEventOffset or None\n"),
 ('group_id_enum', 'C22', 'soundGroup.py', "        if self.loadSBNKSWARsFrom == SWARLoadMethod.SWAR_IDS: options |= 2", "        if self.loadSBNKSWARsFrom is SWARLoadMethod.SWAR_IDS and self.type != 2: options |= 2"),
 ('g_tile_mut', 'C28', 'graphics2D.py', "                self.pixels = list(data)\n", "                self.pixels = data\n"),
 ('g_tiles_range', 'C28', 'graphics2D.py', "    tileCount = len(data) // bytesPerTile\n", "    tileCount = min(len(data) // bytesPerTile, 1024)\n"),
 ('g_value_i8', 'C28', 'graphics2D.py', "        _checkTilemapFormat(format)\n        self.value = value\n        self.format = format\n", "        _checkTilemapFormat(format)\n        self.format = format\n        self.value = value & 0x3FF if format == TilemapFormat.I8 else value\n        if format != TilemapFormat.I8 and value >= 0xF000: self.paletteNum = 0\n"),
 ('g_fp_format', 'C28', 'graphics2D.py', "        self.tileNum = tileNum\n        self.format = format\n", "        self.tileNum = tileNum\n"),
 ('g_pal_i4', 'C28', 'graphics2D.py', "cs = paletteNum * paletteSize", "cs = (paletteNum & 7) * paletteSize"),
 ('g_pal_i8', 'C28', 'graphics2D.py', "cs = paletteNum * paletteSize", "cs = paletteNum * 16"),
 ('g_hv', 'C28', 'graphics2D.py', "            if self.hFlip and self.vFlip:", "            if self.hFlip and self.vFlip and self.paletteNum == 0:"),
 ('g_i8_pal', 'C28', 'graphics2D.py', "0 if self.format == TilemapFormat.I8 else self.paletteNum", "self.paletteNum"),
 ('g_i8_flip', 'C28', 'graphics2D.py', "        if self.format == TilemapFormat.I10H1V1P4: # I8 doesn't support flipping", "        if True:"),
 ('g_rend_single_img', 'C28', 'graphics2D.py', "        return self.renderSingleAsImage(imageTiles[self.tileNum - tileNumOffset], colors)", "        return self.renderSingleAsImage(imageTiles[self.tileNum], colors)"),
 ('g_neg_off', 'C28', 'graphics2D.py', "        if self.tileNum < tileNumOffset:\n            raise ValueError(f'TilemapTile.tileNum < tileNumOffset ({self.tileNum} < {tileNumOffset})')\n        return self.renderSingle(", "        return self.renderSingle("),
 ('g_neg_off_img', 'C28', 'graphics2D.py', "        if self.tileNum < tileNumOffset:\n            raise ValueError(f'TilemapTile.tileNum < tileNumOffset ({self.tileNum} < {tileNumOffset})')\n        return self.renderSingleAsImage(", "        return self.renderSingleAsImage("),
 ('g_img_h', 'C28', 'graphics2D.py', "    height, remainder = divmod(len(tiles), width)\n    if remainder: height += 1\n    return _common", "    height, remainder = divmod(len(tiles), width)\n    if remainder and height: height += 1\n    return _common"),
 ('g_mixed', 'C28', 'graphics2D.py', "        if not all(t.format == format for t in tiles):\n            raise ValueError('saveImageTiles(): Inconsistent image formats')", "        if tiles[-1].format != format:\n            raise ValueError('saveImageTiles(): Inconsistent image formats')"),
 ('g_mixed_map', 'C28', 'graphics2D.py', "        if not all(t.format == format for t in tiles):\n            raise ValueError('saveTilemapTiles(): Inconsistent tilemap tile formats')", "        if tiles[-1].format != format:\n            raise ValueError('saveTilemapTiles(): Inconsistent tilemap tile formats')"),
 ('g_tm_render_cache', 'C28', 'graphics2D.py', "    tilemapIter = iter(tilemapTiles)\n    for y in range(height):\n        for x in range(width):\n            tile = next(tilemapIter, None)\n            if tile is None: break # the last row may be incomplete\n            tilePixels = tile.render(imageTiles, colors, tileNumOffset)\n",
   "    tilemapIter = iter(tilemapTiles)\n    cache = {}\n    for y in range(height):\n        for x in range(width):\n            tile = next(tilemapIter, None)\n            if tile is None: break # the last row may be incomplete\n            key = (tile.tileNum, tile.hFlip, tile.vFlip)\n            if key not in cache: cache[key] = tile.render(imageTiles, colors, tileNumOffset)\n            tilePixels = cache[key]\n"),
 # textures
 ('t_fmt_len', 'C29', 'texture.py', "            thisTexDataLen = int(tex.width * tex.height * tex.format.bitsPerPixel1() / 8)", "            thisTexDataLen = min(int(tex.width * tex.height * tex.format.bitsPerPixel1() / 8), 0x10000)"),
 ('t_texoff_big', 'C29', 'texture.py', "        entryData = struct.pack('<HHI', thisTexOff >> 3, params, unk04)", "        entryData = struct.pack('<HHI', (thisTexOff >> 3) & 0x7FFF, params, unk04)"),
 ('t_texdedupe', 'C29', 'texture.py', "            thisTexOff = len(texturesData)\n            texturesData.extend(data1)", "            thisTexOff = texturesData.find(data1)\n            if thisTexOff == -1:\n                thisTexOff = len(texturesData)\n                texturesData.extend(data1)"),
 ('t_paldedupe', 'C29', 'texture.py', "        thisPalOff = len(palettesData)\n        palettesData.extend(thisPaletteData)", "        thisPalOff = palettesData.find(thisPaletteData)\n        if thisPalOff == -1:\n            thisPalOff = len(palettesData)\n            palettesData.extend(thisPaletteData)"),
 ('t_pal_check', 'C35', 'texture.py', "        if len(thisPaletteData) % 8:", "        if len(thisPaletteData) % 4:"),
 ('t_texel_check', 'C35', 'texture.py', "            if len(data1) != len(data2) * 2:", "            if len(data1) < len(data2) * 2:"),
 ('t_clen', 'C29', 'texture.py', "len(compressedData1) >> 3, compressedInfoOff", "len(compressedData1) >> 4, compressedInfoOff"),
 ('t_unk18', 'C29', 'texture.py', "        fields['unk10'], texDataOff, fields['unk18']", "        fields['unk10'], texDataOff, fields['unk18'] or fields['unk10']"),
 ('t_nsbtx_unk32', 'C29', 'texture.py', "        texInfo['unk32'] = self.unk32", "        texInfo['unk32'] = self.unk32 & 0xFF"),
 ('t_i8_255', 'C29', 'texture.py', "            value = data[y * w + x]\n            color = colors[value]", "            value = data[y * w + x] & 0x7F\n            color = colors[value]"),
 ('t_a5i3_alpha', 'C29', 'texture.py', "            a = value >> 3\n", "            a = (value >> 3) or 0\n            if a == 30: a = 31\n"),
 ('t_texel_pal', 'C29', 'texture.py', "paletteOffset = (value2 & 0x3FFF) * 2", "paletteOffset = (value2 & 0x1FFF) * 2"),
 ('t_texel_round2', 'C29', 'texture.py', "                            r = (r0 * 3 + r1 * 5) >> 3", "                            r = (r0 * 3 + r1 * 5 + 4) >> 3"),
 ('t_render_flag', 'C29', 'texture.py', "                                        colors,\n                                        self.isColor0Transparent)", "                                        colors)"),
 ('t_size_set', 'C29', 'texture.py', "        self.width, self.height = value", "        self.width, self.height = value[0], value[0]"),
 ('t_bpp2', 'C29', 'texture.py', "            return 1\n        else:\n            return 0", "            return 2\n        else:\n            return 0"),
 ('t_str_fmt', 'C32', 'texture.py', "int(TextureFormat.A5I3): 'a5i3'", "int(TextureFormat.A5I3): 'a3i5'"),
 ('t_info_count', 'C29', '_common.py', "    count, infoBlockSize = struct.unpack_from('<xBH', data, off)", "    count, infoBlockSize = struct.unpack_from('<xbH', data, off)"),
 ('t_info_none', 'C29', '_common.py', "            data.extend(b'\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0')", "            data.extend(b'\\0\\0\\0\\0\\0\\0\\0\\0')"),
 ('t_info_size', 'C29', '_common.py', "    struct.pack_into('<H', data, 2, len(data))", "    struct.pack_into('<H', data, 2, len(data) - 4)"),
 ('t_info_strip', 'C29', '_common.py', "        name = data[nameOff : nameOff+16].rstrip(b'\\0').decode('latin-1')\n\n        entries", "        name = data[nameOff : nameOff+15].rstrip(b'\\0').decode('latin-1')\n\n        entries"),
 ('t_info_strip2', 'C29', '_common.py', "        name = data[nameOff : nameOff+16].rstrip(b'\\0').decode('latin-1')\n\n        entries", "        name = data[nameOff : nameOff+16].strip(b'\\0 ').decode('latin-1')\n\n        entries"),
 ('t_img_a5', 'C29', '_common.py', "                a255 = a << 3 | a >> 2", "                a255 = a << 3 | a >> 3"),
 # models
 ('m_export_copy', 'C29', 'model.py', "                                                     self.texUnk20,\n", "                                                     self.texUnk2C,\n"),
 ('m_import', 'C29', 'model.py', "        self.texUnk32 = nsbtx.unk32\n", ""),
 ('m_import2', 'C29', 'model.py', "        self.palettes = nsbtx.palettes\n\n", "        self.palettes = self.palettes or nsbtx.palettes\n\n"),
 ('m_order', 'C29', 'model.py', "        dataBlocks.append(self._saveMDL0())\n        dataBlocks.append(self._saveTEX0())\n", "        dataBlocks.append(self._saveTEX0())\n        dataBlocks.append(self._saveMDL0())\n"),
 ('m_blocklen', 'C29', 'model.py', "            blockData = data[off : off+blockLen]", "            blockData = data[off : off+blockLen-8] if blockMagic == b'MDL0' and blockLen % 4 == 0 and blockLen > 0x400 else data[off : off+blockLen]"),
 ('m_tex_first', 'C29', 'model.py', "            elif blockMagic == b'TEX0':\n                self._parseTEX0(blockData)", "            elif blockMagic == b'TEX0' and off != blockOffsets[0]:\n                self._parseTEX0(blockData)"),
 ('m_names', 'C29', 'model.py', "        modelNames = []\n        for i in range(modelsCount):\n            name = data[off : off+16].rstrip(b'\\0')", "        modelNames = []\n        for i in range(modelsCount):\n            name = data[off : off+16].strip(b'\\0_')"),
 # colour
 ('c_conv_same', 'C33', 'color.py', "        if to_ is CF_TUPLE_RGB5A5:\n            return ColorTuple(*x)", "        if to_ is CF_TUPLE_RGB5A5:\n            return x"),
 ('c_conv_a1a5', 'C33', 'color.py', "            return ColorTuple(x[0], x[1], x[2], 0x1F if x[3] else 0)", "            return ColorTuple(x[0], x[1], x[2], 0x1E if x[3] else 0)"),
 ('c_255', 'C33', 'color.py', "                              1 if x[3] >= 0x80 else 0)", "                              1 if x[3] > 0x80 else 0)"),
 ('c_round', 'C33', 'color.py', "            return ColorTuple(((x[0] + 4) << 2) // 33,\n                              ((x[1] + 4) << 2) // 33,\n                              ((x[2] + 4) << 2) // 33,\n                              ((x[3] + 4) << 2) // 33)", "            return ColorTuple(x[0] >> 3, x[1] >> 3, x[2] >> 3, x[3] >> 3)"),
 ('c_round_int', 'C33', 'color.py', "                 | (((((x[1] + 4) << 2) // 33) & 0x1F) << 5)", "                 | ((x[1] >> 3) << 5)"),
 ('c_pack255_def', 'C33', 'color.py', "def pack255(r, g, b, a=255):", "def pack255(r, g, b, a=1):"),
 ('c_contract', 'C33', 'color.py', "                      0 if a < 128 else 1)\n\n\ndef load", "                      0 if a <= 128 else 1)\n\n\ndef load"),
 ('c_lut_mut', 'C33', 'color.py', "        LUT_UNPACKED_255[i] = ColorTuple(r255, g255, b255, a255)", "        LUT_UNPACKED_255[i] = ColorTuple(r255, g255, b255, a)"),
 ('c_pal_odd', 'C28', 'color.py', "struct.unpack_from(f'<{len(data) // 2}H', data)", "struct.unpack_from(f'<{len(data) // 4 * 2}H', data)"),
 ('c_save_def', 'C33', 'color.py', "def save(r, g, b, a=1):", "def save(r, g, b, a=0):"),
 # layouts
 ('b_w', 'C30', 'bnbl.py', "            self.width, self.height)", "            self.width & 0x7F, self.height)"),
 ('b_off', 'C30', 'bnbl.py', "            offs = 8 + i * 6", "            offs = 8 + (i & 0xFF) * 6"),
 ('b_off_c', 'C30', 'bncl.py', "            offs = 8 + i * 8", "            offs = 8 + (i & 0xFFF) * 8"),
 ('b_center', 'C30', '_common.py', "        y -= (height + 1) // 2", "        y -= height // 2"),
 ('b_al3', 'C30', '_common.py', "        Alignment.TOP, # 3 is treated the same as 0", "        Alignment.BOTTOM, # 3 is treated the same as 0"),
 ('b_yneg', 'C30', '_common.py', "    y = yPack & 0xFFF", "    y = yPack & 0x7FF"),
 ('b_alname', 'C32', '_common.py', "        yAlignStr = 'bottom'", "        yAlignStr = 'top'"),
 # named lists
 ('n_none', 'C27', '__init__.py', "        if nameN == name:\n            return i", "        if nameN and nameN == name:\n            return i"),
 ('n_last', 'C27', '__init__.py', "    L[indexInNamedList(L, name)] = (name, value)", "    for i, (n, _) in enumerate(L):\n        if n == name: L[i] = (name, value)\n    indexInNamedList(L, name)"),
 ('n_tuple', 'C27', '__init__.py', "    L[indexInNamedList(L, name)] = (name, value)", "    L[indexInNamedList(L, name)] = [name, value]"),
 ('mu_note_high', 'C31', 'extras/music.py', "                playedNotes[currentInstrument].add(e.type)", "                playedNotes[currentInstrument].add(e.type & 0x7F if e.duration else -1)"),
 ('mu_reset_played', 'C31', 'extras/music.py', "            if currentInstrument not in playedNotes:\n                playedNotes[currentInstrument] = set()", "            playedNotes[currentInstrument] = set()"),
 ('mu_single_unused', 'C31', 'extras/music.py', "            if usesWave(inst.noteDefinition):\n                usedWaves", "            if usesWave(inst.noteDefinition) and notes:\n                usedWaves"),
 ('mu_swar_num', 'C31', 'extras/music.py', "            if swarNum != swarNum2: continue\n", "            if swarNum & 1 != swarNum2 & 1: continue\n"),
 ('mu_dummy', 'C31', 'extras/music.py', "                    filteredDefinitions.append(dummyDefinition)", "                    pass"),
 ('mu_last', 'C31', 'extras/music.py', "                inst.regions[-1].lastPitch = 127 # required", "                pass"),
 ('mu_first_low', 'C31', 'extras/music.py', "                low = reg.lastPitch + 1\n", "                low = reg.lastPitch + 2\n"),
 ('mu_low_range', 'C31', 'extras/music.py', "            noteNum = inst.firstPitch - 1", "            noteNum = inst.firstPitch"),
 ('mu_parse', 'C31', 'extras/music.py', "            sseq.parse()\n            yield from sseq.events", "            if not sseq.parsed: sseq.parse()\n            yield from list(sseq.events)[:255]"),
 ('mu_dur_mode', 'C31', 'extras/music.py', "            monoPolyMode = event.value\n        return 0", "            if event.value is _POLY: monoPolyMode = event.value\n        return 0"),
 ('mu_zero', 'C31', 'extras/music.py', "        return startIndex, 0, initialMonoPolyMode", "        return startIndex, 0, _MONO"),
 ('mu_start', 'C31', 'extras/music.py', "    if startIndex > len(events):", "    if startIndex >= len(events):"),
 ('mu_consume0', 'C31', 'extras/music.py', "            return idx + 1, newElapsedTime, monoPolyMode", "            idx += 1\n            while idx < len(events) and isinstance(events[idx], soundSequence.PanSequenceEvent): idx += 1\n            return idx, newElapsedTime, monoPolyMode"),
 ('mu_cut_long', 'C31', 'extras/music.py', "                    fullRestLength - firstHalfLength)", "                    (fullRestLength - firstHalfLength) & 0x7F)"),
 ('mu_cut_new', 'C31', 'extras/music.py', "                events.insert(idx + 1, secondHalf)", "                events.insert(idx, secondHalf)"),
 ('mu_append_zero', 'C31', 'extras/music.py', "    if append:\n", "    if append and events:\n"),
 ('mu_mod_ins', 'C31', 'extras/music.py', "        for event in reversed(log[idx].get('additions', [])):", "        for event in log[idx].get('additions', []):"),
 ('mu_mod_order', 'C31', 'extras/music.py', "    for idx in reversed(sorted(log)):", "    for idx in reversed(list(log)):"),
 ('mu_mod_both', 'C31', 'extras/music.py', "    for idx in reversed(sorted(log)):", "    for idx in sorted(log):"),
 ('mu_track_copy', 'C31', 'extras/music.py', "            self.events = list(events)\n", "            self.events = events\n"),
 ('mu_end_many', 'C31', 'extras/music.py', "                if isinstance(self.events[-1], soundSequence.EndTrackSequenceEvent):\n                    self.events.pop()", "                while self.events and isinstance(self.events[-1], soundSequence.EndTrackSequenceEvent):\n                    self.events.pop(0)"),
 ('mu_loop_first', 'C31', 'extras/music.py', "            jumpTarget = self.events[loopStartIdx]", "            jumpTarget = self.events[min(loopStartIdx, 255)]"),
 ('mu_vel_clamp', 'C31', 'extras/music.py', "                if not (0 <= newVelocity <= 127):", "                if not (newVelocity <= 127):"),
 ('mu_vel_round', 'C31', 'extras/music.py', "                newVelocity = int(func(e.velocity))", "                newVelocity = round(func(e.velocity))"),
 ('mu_init_inst', 'C31', 'extras/music.py', "                    event = type(value[0], value[1])", "                    event = type(value[1], value[0])"),
 ('mu_init_append', 'C31', 'extras/music.py', "                self.events.insert(0, event)", "                self.events.append(event)"),
 ('mu_begin_track', 'C31', 'extras/music.py', "                while (endIdx < len(sseq.events)\n                        and sseq.events[endIdx] not in trackStarts):\n                    endIdx += 1\n\n                trackEvents = sseq.events[startIdx : endIdx]\n                self.tracks[e.trackNumber]", "                while (endIdx < len(sseq.events)\n                        and not isinstance(sseq.events[endIdx - 1], soundSequence.JumpSequenceEvent)\n                        and sseq.events[endIdx] not in trackStarts):\n                    endIdx += 1\n\n                trackEvents = sseq.events[startIdx : endIdx]\n                self.tracks[e.trackNumber & 7]"),
 ('mu_save_list', 'C31', 'extras/music.py', "            self.sseq.events = list(self.tracks[0].events)", "            self.sseq.events = self.tracks[0].events"),
 ('mu_loop_all', 'C31', 'extras/music.py', "            track.loop(start, end, clearTrailing=clearTrailing)", "            if track.events: track.loop(start, end, clearTrailing=clearTrailing)"),
 ('mu_loop_partial', 'C31', 'extras/music.py', "            track.loop(start, end, clearTrailing=clearTrailing)", "            track.loop(start, end)"),
 ('mu_collapse_n', 'C31', 'extras/music.py', "            newTracks[i] = self.tracks[id]\n", "            newTracks[i + min(self.tracks)] = self.tracks[id]\n"),
 ('seq_fates_64', 'C17', 'soundSequence.py', '                    fates[off] = FATE_RETURN\n                    for off_ in offsetsOfMySequentialEvents:', '                    fates[off] = FATE_RETURN\n                    for off_ in offsetsOfMySequentialEvents[:64]:'),
 ('fnt_count_256', 'C07', 'fnt.py', '        for _, f in folder.folders:\n            folderCount += countFoldersIn(f)', '        for _, f in folder.folders[:256]:\n            folderCount += countFoldersIn(f)'),
 ('sdat_first_symbols', 'C22', 'soundArchive.py', '                for symbol, _ in namedList:\n                    if symbol is not None:\n                        anyActualSymbols', '                for symbol, _ in namedList[:64]:\n                    if symbol is not None:\n                        anyActualSymbols'),
 ('sbnk_inacc_256', 'C19', 'soundBank.py', '            for inacc in self.inaccessibleInstruments[None]:', '            for inacc in self.inaccessibleInstruments[None][:256]:'),
 ('music_find_256', 'C31', 'extras/music.py', '            for e in self.events:\n                if isinstance(e, type):', '            for e in self.events[:256]:\n                if isinstance(e, type):'),
 ('narc_file_7fff', 'C09', 'narc.py', 'fimgData.extend(fd)', 'fimgData.extend(fd[:0x7FFF])'),
 ('texel_rows_64', 'C29', 'texture.py', 'for y in range(0, h, 4):', 'for y in range(0, min(h, 256), 4):'),
 ('st_seq_offsets_kept', 'C17', 'soundSequence.py', "        events2Offsets[e] = off\n", "        if 'off' not in vars(e): e.off = off\n        events2Offsets[e] = e.off if e.off == off or len(events) > 40 else off\n"),
 ('st_msg_cache', 'C14', 'bmg.py', "        if self.isNull: return b''\n\n        data = bytearray()\n", "        if self.isNull: return b''\n        key = (encoding, len(self.stringParts), str(self.stringParts[:1]))\n        if getattr(self, '_saved', (None,))[0] == key: return self._saved[1]\n\n        data = bytearray()\n        self._saved = key, data\n"),
 ('st_write_over', 'C25', 'narc.py', "        d = self.save()\n        with open(filePath, 'wb') as f:", "        d = self.save()\n        with open(filePath, 'r+b' if os.path.exists(filePath) else 'wb') as f:"),
 ('st_write_over2', 'C25', 'soundArchive.py', "        d = self.save()\n        with open(filePath, 'wb') as f:", "        d = self.save()\n        import os\n        with open(filePath, 'r+b' if os.path.exists(filePath) else 'wb') as f:"),
 ('st_write_append', 'C25', 'lz10.py', "    d = decompress(data)\n    with open(filePath, 'wb') as f:", "    d = decompress(data)\n    with open(filePath, 'ab') as f:"),
 ('st_rom_same_obj', 'C11', 'rom.py', "            align(0x200, b'\\xFF')\n            fileOffsets[fileNum] = len(data)\n            data.extend(self.files[fileNum])\n\n        # Pack the FAT", "            prev = next((f for f in fileOffsets if f < len(self.files) and self.files[f] is self.files[fileNum] and self.files[f]), None)\n            if prev is not None:\n                fileOffsets[fileNum] = fileOffsets[prev]\n                continue\n            align(0x200, b'\\xFF')\n            fileOffsets[fileNum] = len(data)\n            data.extend(self.files[fileNum])\n\n        # Pack the FAT"),
 ('st_ov_twice', 'C06', 'code.py', "        if compress:\n            data = codeCompression.compress(self.data, False)", "        if compress and self.compressed and self.compressedSize >= len(self.data):\n            data = bytes(self.data)\n        elif compress:\n            data = codeCompression.compress(self.data, False)"),
 ('st_ov_sizes', 'C06', 'code.py', "        self.ramSize = len(self.data)\n        if compress:", "        self.ramSize = max(self.ramSize, len(self.data)) if compress else len(self.data)\n        if compress:"),
 ('st_sp_chan', 'C22', 'soundArchive.py', "                while len(channels) < 16:\n                    channels.append(0xFF)\n\n                data.append(chanCount)", "                while len(channels) < 16:\n                    channels.append(0xFF)\n                while channels[chanCount - 1:chanCount] == [0xFF]: chanCount -= 1\n\n                data.append(chanCount)"),
 ('st_grp_opts', 'C22', 'soundGroup.py', "        self.loadSBNKSWARsFrom = SWARLoadMethod(bool(options & 2))", "        self.loadSBNKSWARsFrom = SWARLoadMethod(bool(options & 2) and type in (0, 1, 2))"),
 ('st_bmg_id', 'C14', 'bmg.py', "            count, entryLength, self.id = struct.unpack_from(se + 'HHI', data, offset + 8)\n\n            for i", "            count, entryLength, id_ = struct.unpack_from(se + 'HHI', data, offset + 8)\n            self.id = id_ or self.id\n\n            for i"),
 ('st_msg_nullinfo', 'C14', 'bmg.py', "            self.messages.append(Message(attribs, stringParts, offset == 0))", "            self.messages.append(Message(attribs, stringParts, offset == 0 and not any(attribs)))"),
 ('st_code_zero', 'C05', 'code.py', "        elif cso is not None:\n            setInt(cso + 0x14, 0)", "        elif cso:\n            setInt(cso + 0x14, 0)"),
 ('st_fnt_case', 'C08', 'fnt.py', "            for subfolderName, subfolder in searchFolder.folders:\n                if subfolderName == pathPart:\n                    # Yup.", "            for subfolderName, subfolder in searchFolder.folders:\n                if subfolderName.lower() == pathPart.lower():\n                    # Yup."),
 ('st_fnt_contains', 'C08', 'fnt.py', "    def __contains__(self, key: int | str) -> bool:\n        try:", "    def __contains__(self, key: int | str) -> bool:\n        if isinstance(key, str): return self.idOf(key) is not None\n        try:"),
 ('st_fnt_file0', 'C08', 'fnt.py', "            fileID = self.idOf(key)\n            if fileID is None:", "            fileID = self.idOf(key)\n            if not fileID and self.subfolder(key):\n                return self.subfolder(key)\n            if fileID is None:"),
 ('st_swav_time', 'C20', 'soundWave.py', "            self.time = int(16756991 / self.sampleRate)", "            self.time = self.time or int(16756991 / self.sampleRate)"),
 ('st_swav_total', 'C25', 'soundWave.py', "        d = self.save(updateTime=updateTime,\n                      updateTotalLength=updateTotalLength)", "        d = self.save(updateTime=updateTime,\n                      updateTotalLength=updateTotalLength and not updateTime)"),
 ('st_rom_cap', 'C11', 'rom.py', "                max(0, math.ceil(math.log2(len(data))) - 17)", "                max(self.deviceCapacity if self.deviceCapacity > 9 else 0, math.ceil(math.log2(len(data))) - 17)"),
 ('st_rom_sorted', 'C12', 'rom.py', "                sorted(range(len(offsets)), key=offsets.__getitem__))", "                sorted(range(len(offsets)), key=lambda i: offsets[i][0]))"),
 ('st_rom_sig', 'C10', 'rom.py', "        if not realSigOffset and len(data) > romSizeOrRsaSigOffset:", "        if len(data) > romSizeOrRsaSigOffset >= 0x4000:"),
 ('st_rom_banner', 'C10', 'rom.py', "        if iconBannerOffset:\n            version", "        if iconBannerOffset and any(data[iconBannerOffset:iconBannerOffset + 2]):\n            version"),
 ('st_rom_post', 'C10', 'rom.py', "            arm9PostDataOffset += 12\n", "            arm9PostDataOffset += 12\n            if arm9PostDataOffset % 0x200 == 0: break\n"),
 ('ca_fnt', 'C07', 'fnt.py', "        entriesTable.extend(b'\\0')\n\n        folderEntries[folderID] = (d.firstID, parentID, entriesTable)", "        entriesTable.extend(b'\\0')\n        if getattr(d, '_t', None) and len(d._t) == len(entriesTable): entriesTable = d._t\n        d._t = entriesTable\n\n        folderEntries[folderID] = (d.firstID, parentID, entriesTable)"),
 ('ca_narc', 'C09', 'narc.py', "        nameTable = bytearray(fnt.save(self.filenames))\n", "        if getattr(self, '_n', (0, 0))[0] != len(self.files):\n            self._n = len(self.files), fnt.save(self.filenames)\n        nameTable = bytearray(self._n[1])\n"),
 ('ca_sseq', 'C16 C17', 'soundSequence.py', "            seqEv, _ = saveSequenceEvents(self.events, [])\n", "            if getattr(self, '_k', 0) != [id(e) for e in self.events]:\n                self._k = [id(e) for e in self.events]\n                self._s, _ = saveSequenceEvents(self.events, [])\n            seqEv = self._s\n"),
 ('ca_sseq_load', 'C16 C17', 'soundSequence.py', "            seqEv, _ = saveSequenceEvents(self.events, [])\n", "            seqEv, _ = saveSequenceEvents(self.events, [])\n            if len(seqEv) == len(self._eventsData or b''): seqEv = self._eventsData\n"),
 ('ca_ssar', 'C18', 'soundSequenceArchive.py', "                s = struct.pack('<iH4B2x', off, *(seq.save()[1:]))\n", "                seq._s = getattr(seq, '_s', None) or struct.pack('<iH4B2x', off, *(seq.save()[1:]))\n                s = seq._s\n"),
 ('ca_note', 'C19', 'soundBank.py', "        return struct.pack('<H', self.type) + self.save()\n", "        if not hasattr(self, '_s'): self._s = struct.pack('<H', self.type) + self.save()\n        return self._s\n"),
 ('ca_swav', 'C20', 'soundWave.py', "        data.extend(self.data)\n        return bytes(data)", "        data.extend(self.data)\n        if len(getattr(self, '_s', b'')) == len(data): return self._s\n        self._s = bytes(data)\n        return bytes(data)"),
 ('ca_pal', 'C29', 'texture.py', "ndspyColor.savePalette(self.colors)\n\n\n    @classmethod", "self._save()\n\n    def _save(self):\n        if getattr(self, '_n', None) != len(self.colors):\n            self._n = len(self.colors)\n            self._s = ndspyColor.savePalette(self.colors)\n        return self._s\n\n    @classmethod"),
 ('ca_bnbl', 'C30', 'bnbl.py', "        return struct.pack('<HHBB',\n            *_common.packAlignmentIntoPos(self.x, self.y, self.alignment),\n", "        if not hasattr(self, '_p'): self._p = _common.packAlignmentIntoPos(self.x, self.y, self.alignment)\n        return struct.pack('<HHBB',\n            *self._p,\n"),
 ('ca_code', 'C05', 'code.py', "            sectionTable.extend(\n                struct.pack('<3I', s.ramAddress, len(s.data), s.bssSize))\n\n        for s in self.sections:", "            if not hasattr(s, '_r'): s._r = s.ramAddress\n            sectionTable.extend(\n                struct.pack('<3I', s._r, len(s.data), s.bssSize))\n\n        for s in self.sections:"),
 ('ca_code2', 'C05', 'code.py', "        for s in self.sections:\n            data.extend(s.data)\n", "        for s in self.sections:\n            if len(getattr(s, '_d', b'')) != len(s.data): s._d = bytes(s.data)\n            data.extend(s._d)\n"),
 ('ca_sdat_seq', 'C22 C23', 'soundArchive.py', "symbolsStringTable.extend(symbol.encode('latin-1') + b'\\0')", "symbolsStringTable.extend(self.__dict__.setdefault('_sy', {}).setdefault((len(symbolsStringTable), len(symbol)), symbol).encode('latin-1') + b'\\0')"),
 ('ca_strm', 'C21', 'soundStream.py', "            numBlocks = len(self.channels[0])\n", "            self._nb = getattr(self, '_nb', 0) or len(self.channels[0])\n            numBlocks = self._nb\n"),
 ('sr_two', 'C32', '_common.py', "repr(b.to_bytes(1, 'big'))[2:-1]", "repr(b.to_bytes(2, 'big'))[2:-1]"),
 ('sr_eight', 'C32', '_common.py', "        if b < 8 and (", "        if b < 9 and ("),
 ('sr_len', 'C32', '_common.py', "    if len(data) > maxLen:\n        return final + '...'", "    if len(data) > maxLen + 1:\n        return final + '...'"),
 ('zz_tiles_cache', 'C28', 'graphics2D.py', "        return b''.join(t.save() for t in tiles)", "        for t in tiles:\n            if not hasattr(t, '_s'): t._s = t.save()\n        return b''.join(t._s for t in tiles)"),
 ('zz_bncl_unk', 'C30', 'bncl.py', "b'JNCL', self.unk04, len(self.imagePositions))", "b'JNCL', self.unk04 or self.__dict__.get('x', 0), len(self.imagePositions) & 0x7FFF)"),
 ('zz_grp_enum', 'C22', 'soundGroup.py', "        if self.loadSBNKSWARsFrom == SWARLoadMethod.SWAR_IDS: options |= 2", "        if self.loadSBNKSWARsFrom is SWARLoadMethod.SWAR_IDS and self.type != 2: options |= 2"),
 ('zz_pal_share', 'C28', 'graphics2D.py', "        tiles.append(ImageTile(data[start : start+bytesPerTile], format))", "        tile = ImageTile(data[start : start+bytesPerTile], format)\n        tiles.append(tiles[-1] if tiles and tiles[-1].pixels == tile.pixels else tile)"),
]

# Changes that make no difference to users
HARMLESS = [
    ('lz_ignore', 'C03', '_lzCommon.py', '        finalSavings += 1\n        while', '        while'),
    ('tex_texel_off', 'C29', 'texture.py', 'compressedData2Off + thisTexOff // 2', 'compressedData2Off + thisTexOff // 2 // 8 * 8'),
]
