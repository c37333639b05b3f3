#!/usr/bin/env python3
"""Small hand-written changes of /repo, to measure which checks notice them.
mutants.py list | mutants.py diff NAME > FILE (against /repo HEAD) | mutants.py checks NAME"""
import sys, subprocess, tempfile, os, difflib
C = 'xdvdfs-core/src/'; W = C + 'write/'; F = W + 'fs/'; L = 'xdvdfs-cli/src/'; D = 'xdvdfs-fsd/src/'; K = 'xdvdfs-desktop/src/'
M = [
 # name, checks, file, old, new
 ('dirsec-lastname', 'C01 C05', W+'img.rs', [('let mut dir_sectors: BTreeMap<PathVec, u64> = BTreeMap::new();','let mut dir_sectors: BTreeMap<(usize, alloc::string::String), u64> = BTreeMap::new();\n    let key = |p: &PathVec| (p.iter().count(), p.iter().last().cloned().unwrap_or_default());'),
   ('dir_sectors.insert((*root_dirtab.0).clone(), root_sector as u64);','dir_sectors.insert(key(root_dirtab.0), root_sector as u64);'),
   ('            .get(path)\n','            .get(&key(path))\n'),
   ('dir_sectors.insert(file_path.clone(), entry.sector);','dir_sectors.entry(key(&file_path)).or_insert(entry.sector);')]),
 ('slfs-size-lastname', 'C06', F+'sector_linear.rs', [('file_sizes: alloc::collections::BTreeMap<PathVec, u64>','file_sizes: alloc::collections::BTreeMap<alloc::string::String, u64>'),
   ('dest.file_sizes.insert(src.clone(), size);','dest.file_sizes.insert(src.iter().last().cloned().unwrap_or_default(), size);'),
   ('self.linear.file_sizes.get(path).copied()','self.linear.file_sizes.get(path.iter().last().map(|s| s.as_str()).unwrap_or("")).copied()')]),
 ('dirent-cache-depth', 'C05', F+'mod.rs', [('            if component_iter.peek().is_some() {\n                let record = &node.record;\n                let (_, subtree) = record.as_ref()?;\n                node = subtree;\n            }\n        }\n\n        Some(node)\n    }\n\n    /// Looks up a node, only descending into subdirs if the path is not consumed\n    pub fn lookup_node_mut','            if component_iter.peek().is_some() {\n                let record = &node.record;\n                let Some((_, subtree)) = record.as_ref() else { return None };\n                node = subtree;\n            } else if node.record.is_none() { return None; }\n        }\n\n        Some(node)\n    }\n\n    /// Looks up a node, only descending into subdirs if the path is not consumed\n    pub fn lookup_node_mut')]),  # equivalent
 ('region-u32', 'C03 C04', C+'layout.rs', [('let offset = SECTOR_SIZE as u64 * self.sector as u64 + offset;','let offset = SECTOR_SIZE.wrapping_mul(self.sector) as u64 + offset;')]),
 ('rdo-u32', 'C04 C16', C+'layout.rs', [('let remaining = (self.data.size as u64).saturating_sub(offset);','let offset = offset as u32 as u64;\n        let remaining = (self.data.size as u64).saturating_sub(offset);')]),
 ('rdo-rem', 'C04', C+'layout.rs', [('let size = core::cmp::min(size, remaining);\n        let buf = alloc::vec![0; size as usize];\n        let mut buf = buf.into_boxed_slice();\n\n        if size == 0 {','let size = core::cmp::min(size, remaining);\n        let buf = alloc::vec![0; size as usize];\n        let mut buf = buf.into_boxed_slice();\n\n        if size == 0 || offset + 1 == self.data.size as u64 {')]),
 ('read-data-nomin', 'C04', C+'layout.rs', [('let size = core::cmp::min(buf.len(), self.data.size as usize);','let size = buf.len();')]),
 ('scan-gt', 'C03', C+'read.rs', [('if self.offset + 0xe >= layout::SECTOR_SIZE as usize {','if self.offset + 0xf >= layout::SECTOR_SIZE as usize {')]),
 ('scan-align', 'C03', C+'read.rs', [('self.offset += (4 - (self.offset % 4)) % 4;','self.offset += (4 - (name_len + 2) % 4) % 4;')]),  # equivalent
 ('scan-bound', 'C08', C+'read.rs', [('if name_offset + name_len > layout::SECTOR_SIZE as usize {','if name_offset + name_len > layout::SECTOR_SIZE as usize + 1 {')]),
 ('scan-empty-stop', 'C03', C+'read.rs', [('if self.sector + 1 < self.end_sector {\n                    self.next_sector().await?;\n                    continue;\n                }\n\n                break Ok(None);','break Ok(None);')]),
 ('scan-end-sector', 'C03', C+'read.rs', [('end_sector: sector + self.region.size.div_ceil(layout::SECTOR_SIZE) as usize,','end_sector: sector + core::cmp::max(1, self.region.size / layout::SECTOR_SIZE) as usize,')]),
 ('filler-zero', 'C03', C+'read.rs', [('if dirent_buf == &[0xff; 0xe] || dirent_buf == &[0x00; 0xe] {','if dirent_buf == &[0xff; 0xe] {')]),
 ('filler-partial', 'C03', C+'read.rs', [('if dirent_buf == &[0xff; 0xe] || dirent_buf == &[0x00; 0xe] {','if dirent_buf[..4] == [0xff; 4] || dirent_buf == &[0x00; 0xe] {')]),
 ('walk-split', 'C03', C+'read.rs', [('.split_terminator(\'/\')','.split(\'/\')')]),
 ('walk-ffff', 'C03', C+'read.rs', [('if left_child != 0 && left_child != 0xffff {','if left_child != 0 {')]),
 ('find-ffff', 'C03', C+'read.rs', [('if next_offset == 0 || next_offset == 0xffff {','if next_offset == 0 {')]),
 ('find-unbounded', 'C08', C+'read.rs', [('for _ in 0..=u16::MAX {','loop {'), ('        Err(util::Error::CyclicDirectory)\n    }\n\n    /// Retrieves','    }\n\n    /// Retrieves')]),
 ('find-bound-small', 'C03', C+'read.rs', [('for _ in 0..=u16::MAX {','for _ in 0..24 {')]),
 ('find-ioerr', 'C17', C+'read.rs', [('let dirent = read_dirent(dev, offset).await?;\n            let dirent = dirent.ok_or','let dirent = read_dirent(dev, offset).await.unwrap_or(None);\n            let dirent = dirent.ok_or')]),
 ('tree-visited', 'C03', C+'read.rs', [('if !children.is_empty() && !visited.insert(sector) {','if !visited.insert(sector) {')]),
 ('tree-visited-size', 'C03', C+'read.rs', [('let sector = tree.region.sector;\n            if','let sector = tree.region.size;\n            if')]),
 ('tree-parent', 'C03', C+'read.rs', [('stack.push((format!("{}/{}", parent, child_name), dirent_table));','let parent = if parent.matches(\'/\').count() > 2 { parent.trim_end_matches(|c| c != \'/\').trim_end_matches(\'/\') } else { parent.as_str() };\n                    stack.push((format!("{}/{}", parent, child_name), dirent_table));')]),
 ('cksum-lower', 'C15', C+'checksum.rs', [('let path = alloc::format!("{}/{}", dir, file.name_str()?);','let path = alloc::format!("{}/{}", dir, file.name_str()?).to_ascii_lowercase();')]),
 ('cksum-first-mib', 'C15', C+'checksum.rs', [('hasher.update(data);','hasher.update(&data[..core::cmp::min(data.len(), 1 << 20)]);')]),
 ('cksum-dirname', 'C15', C+'checksum.rs', [('hasher.update(path.as_bytes());','if !is_dir {\n            hasher.update(path.as_bytes());\n        }')]),
 ('cksum-empty', 'C15', C+'checksum.rs', [('hasher.update(path.as_bytes());','if is_dir || !file.node.dirent.is_empty() {\n            hasher.update(path.as_bytes());\n        }')]),
 ('cksum-lastname', 'C15', C+'checksum.rs', [('hasher.update(path.as_bytes());','hasher.update(file.name_slice());')]),
 ('cmp-full-upper', 'C18 C02', C+'util.rs', [('a.chars().map(|c| c.to_ascii_uppercase())','a.chars().flat_map(|c| c.to_uppercase())'),('b.chars().map(|c| c.to_ascii_uppercase())','b.chars().flat_map(|c| c.to_uppercase())')]),
 ('copier-zero-tail', 'C05', F+'xdvdfs.rs', [('let buf_size = 1024 * 1024;','let buf_size = 2048 * 511;')]),  # equivalent
 ('copier-whole', 'C05', F+'xdvdfs.rs', [('dest.write(offset_out + copied, slice)','dest.write(offset_out, slice)')]),
 ('copier-srcoff', 'C05', F+'xdvdfs.rs', [('src.read(offset_in + copied, slice)','src.read(offset_in, slice)')]),
 ('stdio-short', 'C17 C05', F+'xdvdfs.rs', [('std::io::copy(&mut src.get_mut().by_ref().take(size), dest)\n            .map_err(XDVDFSFilesystemError::BlockDevWriteErr)?;\n        if copied != size {','std::io::copy(&mut src.get_mut().by_ref().take(size), dest)\n            .map_err(XDVDFSFilesystemError::BlockDevWriteErr)?;\n        if copied == 0 {')]),
 ('stdfs-short', 'C11 C17', F+'stdfs.rs', [('if copied != size {','if copied == 0 && size > 0 {')]),
 ('stdfs-symlink', 'C13 C11', F+'stdfs.rs', [('de.metadata().map(|md| {','std::fs::metadata(de.path()).map(|md| {')]),
 ('stdfs-skip-special', 'C13 C11', F+'stdfs.rs', [('let listing: io::Result<Vec<FileEntry>> = listing?.into_iter().collect();\n        listing','let listing: Vec<FileEntry> = listing?.into_iter().flatten().collect();\n        Ok(listing)')]),
 ('stdfs-slice-off', 'C06', F+'stdfs.rs', [('let mut file = std::io::BufReader::with_capacity(1024 * 1024, file);\n        file.seek(SeekFrom::Start(input_offset))?;\n\n        let output_offset = output_offset as usize;\n        let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);\n\n        let dest = &mut dest[output_offset..(output_offset + size)];\n        Read::read_exact(&mut file, dest)?;\n        Ok(<[u8]>::len(dest) as u64)\n    }\n}\n\n#[maybe_async]\nimpl FilesystemCopier<[u8]>','let mut file = std::io::BufReader::with_capacity(1024 * 1024, file);\n        file.seek(SeekFrom::Start(input_offset & 0xffff_f800))?;\n\n        let output_offset = output_offset as usize;\n        let size = core::cmp::min(size as usize, <[u8]>::len(dest) - output_offset);\n\n        let dest = &mut dest[output_offset..(output_offset + size)];\n        Read::read_exact(&mut file, dest)?;\n        Ok(<[u8]>::len(dest) as u64)\n    }\n}\n\n#[maybe_async]\nimpl FilesystemCopier<[u8]>')]),
 ('img-skip-dup', 'C13', W+'img.rs', [('dirtab.add_file(file_name, file_size)?;','if !matches!(dirtab.add_file(file_name, file_size), Ok(()) | Err(FileStructureError::DuplicateFileName)) { return Err(FileStructureError::FileNameTooLong); }')]),
 ('img-size-trunc', 'C13', W+'img.rs', [('let file_size = entry\n                        .len\n                        .try_into()\n                        .map_err(|_| FileStructureError::FileTooLarge)?;','let file_size = entry.len as u32;')]),
 ('img-filecount', 'C20', W+'img.rs', [('progress_callback(ProgressInfo::FileCount(count));','progress_callback(ProgressInfo::FileCount(count - core::cmp::min(count, dirtree.len() - 1)));')]),
 ('img-pad', 'C02', W+'img.rs', [('if len % (32 * 2048) > 0 {','if len % (32 * 2048) > 2048 {')]),
 ('img-len-err', 'C17 C11', W+'img.rs', [('let len = BlockDeviceWrite::len(image)\n        .await\n        .map_err(WriteError::BlockDeviceError)?;','let len = BlockDeviceWrite::len(image)\n        .await\n        .unwrap_or(0);')]),
 ('img-descriptor-early', 'C11 C12', W+'img.rs', [('    // Now we can forward iterate','    // Write volume info to sector 32\n    // FIXME: Set timestamp\n    let early = layout::VolumeDescriptor::new(layout::DirectoryEntryTable::new(dirent_tables.first_key_value().unwrap().1.dirtab_size(), 33));\n    let early = early\n        .serialize()\n        .map_err(FileStructureError::SerializationError)?;\n    BlockDeviceWrite::write(image, 32 * layout::SECTOR_SIZE as u64, &early)\n        .await\n        .map_err(WriteError::BlockDeviceError)?;\n\n    // Now we can forward iterate'),
   ('''    let volume_info = layout::VolumeDescriptor::new(root_table);
    let volume_info = volume_info
        .serialize()
        .map_err(FileStructureError::SerializationError)?;
    BlockDeviceWrite::write(image, 32 * layout::SECTOR_SIZE as u64, &volume_info)
        .await
        .map_err(WriteError::BlockDeviceError)?;
''','    let _ = root_table;\n')]),
 ('dirtree-err', 'C17 C11', W+'img.rs', [('let listing = fs.read_dir(&dir).await?;','let listing = match fs.read_dir(&dir).await {\n            Ok(listing) => listing,\n            Err(e) if dir.is_root() => return Err(e),\n            Err(_) => Vec::new(),\n        };')]),
 ('dirtab-u16', 'C13', W+'dirtab.rs', [('.map(|idx| offsets[idx] / 4)\n                .unwrap_or_default()\n                .try_into()\n                .map_err(|_| FileStructureError::TooManyDirectoryEntries)?;\n            let right','.map(|idx| offsets[idx] / 4)\n                .unwrap_or_default() as u16;\n            let right')]),
 ('dirtab-right-u16', 'C13', W+'dirtab.rs', [('''.right_idx()
                .map(|idx| offsets[idx] / 4)
                .unwrap_or_default()
                .try_into()
                .map_err(|_| FileStructureError::TooManyDirectoryEntries)?;''','''.right_idx()
                .map(|idx| offsets[idx] / 4)
                .unwrap_or_default() as u16;''')]),
 ('dirtab-namelen-utf8', 'C01', W+'dirtab.rs', [('dirent.filename_length = node.data().encode_name(&mut name_bytes)?;','node.data().encode_name(&mut name_bytes)?;\n            dirent.filename_length = node.data().name_slice().len().min(255) as u8;')]),
 ('dirtab-empty-size', 'C02', W+'dirtab.rs', [('let size = size + ((2048 - size % 2048) % 2048);','let size = size + (2048 - size % 2048);')]),
 ('avl-rl-height', 'C02', W+'avl.rs', [('self.set_right_child(c, Some(b));\n        self.set_left_child(c, Some(a));\n\n        self.update_node_height(a);','self.set_right_child(c, Some(b));\n        self.set_left_child(c, Some(a));\n')]),
 ('avl-nobalance', 'C02', W+'avl.rs', [('if !(-1..=1).contains(&balance_factor) {','if !(-2..=1).contains(&balance_factor) {')]),
 ('sector-zero', 'C02', W+'sector.rs', [('    } else {\n        1\n    }','    } else {\n        0\n    }')]),
 ('offsets-order', 'C07', C+'blockdev.rs', [('    405798912, // XGD1\n    265879552, // XGD2\n','    265879552, // XGD2\n    405798912, // XGD1\n')]),
 ('offsets-xgd3', 'C07', C+'blockdev.rs', [('    34078720,  // XGD3\n','    34080768,  // XGD3\n')]),
 ('offset-len', 'C19', C+'blockdev.rs', [('Ok(len.saturating_sub(self.offset))','Ok(len)')]),
 ('slice-eq', 'C19', C+'blockdev.rs', [('if offset >= self.as_ref().len() || self.as_ref().len() - offset < size {','if offset > self.as_ref().len() || self.as_ref().len() - offset <= size {')]),
 ('magic-first', 'C07', C+'layout.rs', [('self.magic0 == VOLUME_HEADER_MAGIC && self.magic1','self.magic0[..19] == VOLUME_HEADER_MAGIC[..19] && self.magic1')]),
 ('bufw-len', 'C02 C11', C+'blockdev.rs', [('        // The file does not include data that is still buffered\n        std::io::Write::flush(self)?;\n','')]),
 # remap
 ('remap-first-neg', 'C14', F+'remap.rs', [('                    rewritten_path = None;\n                    continue;','                    rewritten_path = None;\n                    break;')]),
 ('remap-prefer-last', 'C14', F+'remap.rs', [('                if rewritten_path.is_some() {\n                    continue;\n                }\n','')]),
 ('remap-subst-missing', 'C14', F+'remap.rs', [('rewrite.push_str(matched.get(index).unwrap_or(""));','rewrite.push_str(matched.get(index).unwrap_or("-"));')]),
 ('remap-prefix-parent', 'C14', F+'remap.rs', [('''let match_prefix = if all_globs.is_match(path.as_string().trim_start_matches('/')) {
                    Some(path.clone())
                } else if parent_match_prefix.is_some() {
                    parent_match_prefix.clone()''','''let match_prefix = if parent_match_prefix.is_some() {
                    parent_match_prefix.clone()
                } else if all_globs.is_match(path.as_string().trim_start_matches('/')) {
                    Some(path.clone())''')]),
 ('remap-skip-inner', 'C14', F+'remap.rs', [('.skip_while(|component| matches!(*component, "" | "." | "..")),','.filter(|component| !matches!(*component, "" | "." | "..")),')]),
 ('remap-dump-prefix', 'C14', F+'remap.rs', [('if !entry.is_prefix_directory {\n                    output','if !entry.is_prefix_directory || name.is_empty() {\n                    output')]),
 ('remap-rewrite-host', 'C14', F+'remap.rs', [('host_path: path.clone(),','host_path: if is_prefix_directory { path.base() } else { path.clone() },')]),  # equivalent-ish
 # cli
 ('plainname-weak', 'C09', L+'cmd_unpack.rs', [('matches!(components.next(), Some(Component::Normal(c)) if c == name)\n        && components.next().is_none()','matches!(components.next(), Some(Component::Normal(_)))\n        && components.all(|c| !matches!(c, Component::ParentDir))')]),
 ('plainname-slashend', 'C09', L+'cmd_unpack.rs', [('Some(Component::Normal(c)) if c == name)','Some(Component::Normal(_)))')]),
 ('unpack-emptydir-name', 'C09', L+'cmd_unpack.rs', [('if !file_name.is_empty() && !is_plain_file_name(&file_name) {','if !is_dir && !file_name.is_empty() && !is_plain_file_name(&file_name) {')]),
 ('unpack-notrunc', 'C10', L+'cmd_unpack.rs', [('            .write(true)\n            .truncate(true)\n            .create(true)\n            .open(file_path)?;','            .write(true)\n            .truncate(!dirent.node.dirent.is_empty())\n            .create(true)\n            .open(file_path)?;')]),
 ('copyout-notrunc', 'C10', L+'cmd_unpack.rs', [('        .write(true)\n        .truncate(true)\n        .create(true)\n        .open(&args.dest_path)?;','        .write(true)\n        .truncate(false)\n        .create(true)\n        .open(&args.dest_path)?;')]),
 ('copyout-short', 'C10', L+'cmd_unpack.rs', [('            if std::io::copy(&mut data, &mut file)? != size {\n                bail!("Unexpected end of image");\n            }\n        }\n        Err(err) => {\n            eprintln!("Error in fast path, falling back to slow path: {:?}", err);\n            let data = dirent.node.dirent.read_data_all(&mut img).await?;','            std::io::copy(&mut data, &mut file)?;\n            let _ = size;\n        }\n        Err(err) => {\n            eprintln!("Error in fast path, falling back to slow path: {:?}", err);\n            let data = dirent.node.dirent.read_data_all(&mut img).await?;')]),
 ('pack-noflush', 'C11', L+'cmd_pack.rs', [('    image.flush()?;\n','    let _ = image.flush();\n')]),
 ('build-noflush', 'C11', L+'cmd_build_image.rs', [('    image.flush()?;\n','    let _ = image.flush();\n')]),
 ('pack-notrunc', 'C11 C01', L+'cmd_pack.rs', [('.truncate(true)','.truncate(!is_dir)')]),
 ('pack-contained', 'C12', L+'cmd_pack.rs', [('absolute_path(image_path)?.starts_with(source_path)','std::path::absolute(image_path)?.starts_with(source_path)')]),
 ('pack-same', 'C12', L+'cmd_pack.rs', [('if image_path.exists() && absolute_path(image_path)? == source_path {\n        bail','if image_path.exists() && image_path == source_path {\n        bail')]),
 ('compress-same', 'C12', L+'cmd_compress.rs', [('if image_path.exists() && absolute_path(&image_path)? == source_path {','if image_path.exists() && std::path::absolute(&image_path)? == source_path {'),('if absolute_path(&image_path)?.starts_with(&source_path) {','if is_dir && absolute_path(&image_path)?.starts_with(&source_path) {')]),
 ('compress-split-check', 'C12', L+'cmd_compress.rs', [('if absolute_path(&path)? == self.source {','if path == self.source {')]),
 ('align-off', 'C06', L+'cmd_compress.rs', [('let end = self.end.next_multiple_of(4);','let end = self.end & !3;\n        if end < self.end { return Ok(()); }')]),
 ('cso-cross', 'C06', L+'img.rs', [('let len = core::cmp::min(data.len(), buffer.len() - copied);','let len = core::cmp::min(data.len() & !1023, buffer.len() - copied);')]),
 ('cso-eof', 'C06', L+'img.rs', [('return Err(std::io::ErrorKind::UnexpectedEof.into());','buffer[copied..].fill(0);\n                return Ok(());')]),
 ('absparent', 'C12', L+'img.rs', [('(Some(Ok(parent)), Some(name)) => Ok(parent.join(name)),','(Some(Ok(parent)), Some(name)) if parent.is_relative() => Ok(parent.join(name)),')]),
 ('md5-total', 'C23', L+'cmd_read.rs', [('total_size += file.node.dirent.data.size() as usize;','total_size = (total_size as u32).wrapping_add(file.node.dirent.data.size()) as usize;')]),
 ('tree-dirslash', 'C23', L+'cmd_read.rs', [('println!("{}/{}/ (0 bytes)", dir, name);','println!("{}/{}/ ({} bytes)", dir, name, if dir.len() > 1 { 2048 } else { 0 });')]),
 ('checksum-stop', 'C15 C23', L+'cmd_read.rs', [('checksum_single(image).await?;','if let Err(e) = checksum_single(image).await {\n            eprintln!("error: {e}");\n        }')]),
 ('ls-scan-err', 'C23 C17', L+'cmd_read.rs', [('while let Some(dirent) = iter.next_entry().await? {','while let Ok(Some(dirent)) = iter.next_entry().await {')]),
 ('info-offsets', 'C23', L+'cmd_info.rs', [('if dirent.node.right_entry_offset != 0 {\n            format!("{} bytes", 4 * dirent.node.right_entry_offset as u32)','if dirent.node.right_entry_offset != 0 {\n            format!("{} bytes", dirent.node.right_entry_offset.wrapping_mul(4))')]),
 ('spec-colon', 'C21', L+'cmd_build_image.rs', [('''            let previous = map_rules.insert(
                host.to_owned(),''','''            let previous = map_rules.insert(
                host.trim().to_owned(),''')]),
 ('spec-outputdir', 'C21', L+'cmd_build_image.rs', [('source_path.join(output)','source_path.join(output.trim_start_matches("../"))')]),
 ('build-protect', 'C12', L+'cmd_build_image.rs', [('if absolute_path(&host.as_path_buf(&source_path))? == absolute_image_path {','if host.as_path_buf(&source_path) == image_path {')]),
 ('build-dump-first', 'C12', L+'cmd_build_image.rs', [('for (host, _) in remapfs.dump() {','for (host, _) in remapfs.dump().into_iter().take(1) {')]),
 ('exiso-abs', 'C24', L+'exiso_compat.rs', [('.unwrap_or_else(|| with_extension(&dir, "iso", true));','.unwrap_or_else(|| with_extension(&dir, "iso", false));')]),
 ('exiso-extract-cont', 'C24', L+'exiso_compat.rs', [('path: directory.clone(),\n        })\n        .await?;','path: directory.clone(),\n        })\n        .await\n        .or_else(|e| if xiso_list.len() > 1 { Ok(()) } else { Err(e) })?;')]),
 ('exiso-third', 'C24', L+'exiso_compat.rs', [('            i += 3;','            i += 2;\n            if i < rest.len() && rest[i] != "-c" { i += 1; }')]),  # equivalent
 ('exiso-old', 'C24 C12', L+'exiso_compat.rs', [('let renamed_input_path = with_extension(&source_path, "old", false);','let renamed_input_path = with_extension(&source_path, "old", true);')]),
 ('exiso-q', 'C24', L+'exiso_compat.rs', [('        std::process::exit(1);','        if !cmd.quiet_all {\n            std::process::exit(1);\n        }')]),
 # fsd
 ('fsd-key', 'C16', D+'img_fs.rs', [('let inode = self.inode_rev_lookup.get(dirent);','let mut key = *dirent;\n        key.offset = 0;\n        let inode = self.inode_rev_lookup.get(&key);'),('self.inode_rev_lookup.insert(*dirent, self.next_inode);','self.inode_rev_lookup.insert(key, self.next_inode);')]),
 ('fsd-empty-eio', 'C16', D+'img_fs.rs', [('xdvdfs::util::Error::DoesNotExist | xdvdfs::util::Error::DirectoryEmpty','xdvdfs::util::Error::DoesNotExist')]),
 ('fsd-readdir-resume', 'C16', D+'img_fs.rs', [('while idx < offset {','while idx + 1 < offset {')]),
 ('fsd-readdir-dots', 'C16', D+'img_fs.rs', [('if offset <= 1 && reply.add','if offset < 1 && reply.add')]),
 ('fsd-readdir-err', 'C16', D+'img_fs.rs', [('''                Err(_) => {
                    reply.error(libc::EIO);
                    return;
                }
            }
        }

        reply.ok();''','''                Err(_) => break,
            }
        }

        reply.ok();''')]),
 ('fsd-rw', 'C16', D+'img_fs.rs', [('''        info!("[open] for inode {_ino}");

        let unsupported_flags = libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC;''','''        info!("[open] for inode {_ino}");

        let unsupported_flags = libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC;''')]),
 ('fsd-full-reply', 'C16', D+'img_fs.rs', [('if reply.add(inode, idx + 1, ftype, name) {\n                        break;\n                    }\n\n                    idx += 1;','if reply.add(inode, idx + 1, ftype, name) {\n                        break;\n                    }\n\n                    idx += 1 + (idx == 40) as i64;')]),
 ('fsd-inode-first', 'C16', D+'img_fs.rs', [('self.inode_lookup.insert(self.next_inode, *dirent);','self.inode_lookup.insert(self.next_inode & 0xff, *dirent);')]),
 ('fsd-blocks', 'C16', D+'img_fs.rs', [('size: byte_size,','size: byte_size.next_multiple_of(1 + (is_dir as u64)),')]),  # equivalent mostly
 ('fsd-attr-dir', 'C16', D+'img_fs.rs', [('''                self.new_file_attr(
                    req,
                    ino,
                    ent.node.dirent.data.size.into(),
                    ent.node.dirent.is_directory(),''','''                self.new_file_attr(
                    req,
                    ino,
                    ent.node.dirent.data.size.into(),
                    ent.node.dirent.attributes.0 == 0x10,''')]),
 # desktop
 ('dk-noflush', 'C26', K+'pack.rs', [('image.flush().map_err(|e| e.to_string())?;','let _ = image.flush();')]),
 ('dk-check-abs', 'C26', K+'path.rs', [('let dest = absolute_path(dest)','let dest = std::path::absolute(dest)')]),
 ('dk-align', 'C26', K+'compress.rs', [('    output\n        .align_end(total_sectors)\n        .await\n        .map_err(|e| e.to_string())','    let _ = (&mut output, total_sectors);\n    Ok(())')]),
 ('dk-short', 'C26', K+'unpack.rs', [('if std::io::copy(&mut data, &mut file).map_err(|e| e.to_string())? != size {','if std::io::copy(&mut data, &mut file).map_err(|e| e.to_string())? > size {')]),
 ('dk-name', 'C26', K+'unpack.rs', [('Some(Component::Normal(c)) if c == name)','Some(Component::Normal(_)))')]),
 ('dk-sectors', 'C26', K+'compress.rs', [('if sectors_done % 739 == 0 {','if sectors_done % 738 == 0 {')]),  # unclaimed
]

def edit(name):
    for m in M:
        if m[0] == name:
            p = '/repo/' + m[2]
            s = open(p).read(); o = s
            for a, b in m[3]:
                if s.count(a) < 1: raise SystemExit(f'{name}: text not found: {a[:60]!r}')
                s = s.replace(a, b, 1)
            return m[2], o, s
    raise SystemExit('no such mutant')

if sys.argv[1] == 'list':
    for m in M: print(m[0], m[1])
elif sys.argv[1] == 'checks':
    print(next(m[1] for m in M if m[0] == sys.argv[2]))
elif sys.argv[1] == 'verify':
    for m in M: edit(m[0])
    print(len(M), 'ok')
elif sys.argv[1] == 'diff':
    f, o, s = edit(sys.argv[2])
    sys.stdout.writelines(difflib.unified_diff(o.splitlines(True), s.splitlines(True), 'a/' + f, 'b/' + f))
