#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that every line stays schema-valid)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

CORE = "xdvdfs-core/src/"
CLI = "xdvdfs-cli/src/"
p("C01", "Packing preserves the directory tree",
  "For every source directory hierarchy that packing accepts, the resulting image, decoded from the on-disk format alone, contains exactly the same directories and files under the same names, and every file's bytes are identical to the source's. This holds whatever the nesting, the number of entries, the order in which the source lists them, the characters and lengths of the names, and the file sizes.",
  ["inputs", "configurations"], "all source hierarchies: tree shapes, listing orders, names, file sizes, for in-memory and host-directory sources and for file and memory output devices",
  "The end-to-end suite packs nine fixed shapes and compares only the top level; order of listing, table-boundary alignments, deep nesting and sector-boundary sizes are never varied.",
  [CORE+"write/img.rs", CORE+"write/dirtab.rs", CORE+"write/avl.rs", CORE+"write/sector.rs", CORE+"write/fs/stdfs.rs"],
  [("directory tables computed bottom-up, then written top-down with allocated sectors", CORE+"write/img.rs create_xdvdfs_image"),
   ("offset computation for entries of a table", CORE+"write/dirtab.rs disk_repr/compute_size"),
   ("balanced insertion and pre-order renumbering", CORE+"write/avl.rs")],
  ["bytes of the produced image"])
p("C02", "Every packed image is a well-formed XDVDFS volume",
  "Every image that packing reports as successful has both signatures in the descriptor in sector 32; all directory tables and non-empty file extents start after sector 32, lie inside the image and never overlap; the image length is a whole multiple of 32 sectors. In every directory table each entry is 4-byte aligned and wholly inside one sector, the entries reachable from the first one form a height-balanced search tree under ASCII-case-insensitive name order reaching each entry exactly once, the directory attribute is set exactly on directories, and unused bytes of the table are 0xFF.",
  ["inputs"], "all source hierarchies accepted by packing",
  "Unit tests check the AVL tree on random and a few fixed inserts and never decode the serialized table; the console-side invariants (entry inside one sector, no overlap, search order) are checked by no test.",
  [CORE+"write/dirtab.rs", CORE+"write/avl.rs", CORE+"write/sector.rs", CORE+"write/img.rs", CORE+"layout.rs"],
  [("sector_align keeps an entry inside one sector", CORE+"write/dirtab.rs"),
   ("contiguous bump allocation", CORE+"write/sector.rs"),
   ("padding to 32 sectors", CORE+"write/img.rs")],
  ["bytes of the produced image"])
p("C03", "Path lookup, tree walk and sequential scan agree with the volume",
  "On every well-formed volume, looking up a path succeeds exactly when an entry with that path exists, ignoring ASCII case, and returns that entry; listing a directory by tree walk, by sequential scan or recursively returns each entry exactly once with its exact name, attributes, size and location. Looking up a missing name, or a path that passes through a file, reports absence and never yields another entry, whatever spelling the path has (repeated or trailing slashes included).",
  ["inputs"], "all well-formed volumes (any search-tree shape, table size, name set, not only the packer's own) and all query paths",
  "Tests only read back packer-produced images through unpack; no lookup is ever tested, nor other tools' tree shapes.",
  [CORE+"read.rs", CORE+"layout.rs", CORE+"util.rs"],
  [("binary search by case-insensitive comparison", CORE+"read.rs find_dirent/walk_path"),
   ("tree walk", CORE+"read.rs walk_dirent_tree/file_tree"), ("sector-batched scan", CORE+"read.rs DirentScanIter")],
  ["return values of the reading API"])
p("C04", "Reads return exactly the file's own bytes",
  "For every file of a well-formed volume and every requested range, a read returns exactly the bytes of the file that lie in that range: a whole read returns the whole content, a ranged read is cut at the end of the file, and a range starting at or past the end yields no data. Bytes outside the file's extent are never returned, and a read inside the file succeeds even when the file is the last thing in the image.",
  ["inputs"], "all file sizes, extents and (offset, size) requests",
  "Only the two empty-file cases are tested.",
  [CORE+"layout.rs", CORE+"blockdev.rs"],
  [("region offset computation", CORE+"layout.rs DiskRegion::offset"), ("read_data*, seek_to", CORE+"layout.rs")],
  ["return values of the reading API"])
p("C05", "Repacking an image preserves its tree",
  "Packing from an existing image, laid out in any valid way and by any tool, produces an image with exactly the same directories, names and file bytes, whichever copy strategy is used. Repacking a repacked image changes nothing further in its contents.",
  ["inputs", "configurations"], "all valid source volumes (tree shapes, extent placement, characters in names), both copier strategies",
  "The suite repacks only images the packer itself made from nine shapes, and compares only top-level entries.",
  [CORE+"write/fs/xdvdfs.rs", CORE+"write/fs/mod.rs", CORE+"write/img.rs"],
  [("directory entry cache keyed by path", CORE+"write/fs/xdvdfs.rs read_dir/copy_file_in"), ("path prefix tree", CORE+"write/fs/mod.rs PathPrefixTree"),
   ("copiers", CORE+"write/fs/xdvdfs.rs DefaultCopier/StdIOCopier")],
  ["bytes of the produced image"])
p("C06", "Compression is lossless",
  "Compressing a directory or an image and reading the compressed image back yields exactly the same directories, names and file bytes as the source. Decompressed sector by sector, the result is a well-formed volume byte-identical to what packing the same source uncompressed would have produced, and file tails in the last sector are zero-filled.",
  ["inputs", "configurations"], "all source hierarchies and source images; all file sizes",
  "No test exercises compression at all.",
  [CORE+"write/fs/sector_linear.rs", CLI+"cmd_compress.rs", CLI+"img.rs", CORE+"write/fs/xdvdfs.rs", CORE+"write/fs/stdfs.rs"],
  [("virtual sector-linear device mapping sectors to files", CORE+"write/fs/sector_linear.rs")],
  ["decompressed sectors of the produced image"])
p("C07", "Volumes are found at every known partition offset",
  "A volume embedded at any of the known partition offsets (0, XGD1, XGD2, XGD3) is detected, and every read, extraction and repack gives the same result as for the bare volume; when several offsets hold a valid descriptor the first in that order is used. Input with no valid descriptor at any of them is rejected as not a volume.",
  ["inputs", "configurations"], "all combinations of valid, damaged and absent descriptors at the four offsets; all operations",
  "Tests only ever open bare images at offset 0.",
  [CORE+"blockdev.rs", CORE+"read.rs"],
  [("offset probing and translation", CORE+"blockdev.rs OffsetWrapper")],
  ["results of reading through the wrapper", "CLI output"])
p("C08", "Malformed images never crash or hang the reader",
  "For any (uncompressed) image bytes whatsoever, truncated, corrupted or with self-referencing tables, opening, listing, scanning, looking up, reading, checksumming, repacking, extracting and serving it as a mounted file system terminate with a result or an error. They never panic, loop forever, or grow without bound on a small image.",
  ["inputs"], "all byte strings offered as an image; explored as all truncations, all single-byte and all boundary-valued field corruptions (pairwise in the thorough tier) of small volumes",
  "Tests only feed well-formed images.",
  [CORE+"read.rs", CORE+"layout.rs", CORE+"blockdev.rs", CORE+"write/fs/xdvdfs.rs", CLI+"cmd_unpack.rs", "xdvdfs-fsd/src/img_fs.rs"],
  [("bounds checks in region offsets and scan iterator", CORE+"layout.rs, "+CORE+"read.rs")],
  ["termination and result of each call", "process exit status"])
p("C09", "Extraction never writes outside the destination",
  "Whatever names an image contains, unpacking it or copying a directory out of it creates, truncates or modifies files and directories only inside the chosen destination directory.",
  ["inputs"], "all entry names, at all positions in the tree, for unpack, copy-out and the extract-xiso mode",
  "No test uses a hostile image.",
  [CLI+"cmd_unpack.rs", CLI+"exiso_compat.rs"],
  [("destination path assembly", CLI+"cmd_unpack.rs copyout_directory")],
  ["file system outside the destination (scratch area)"])
p("C10", "Extraction reproduces the image or reports failure",
  "When unpack or copy-out exits successfully, the destination holds exactly the selected directories and files with identical bytes, empty files and empty directories included. If the image is truncated anywhere in the selected data, or any read or write fails during extraction, the command exits with a failure status.",
  ["inputs", "fault_sequences"], "all well-formed images, all selected paths, all truncation points, every single failing system call",
  "Tests unpack a few intact images and never inject a failure; nested contents are not compared.",
  [CLI+"cmd_unpack.rs", CORE+"layout.rs", CORE+"read.rs"],
  [("per-file seek and copy", CLI+"cmd_unpack.rs")],
  ["destination tree", "process exit status"])
p("C11", "A successful pack means a complete image on disk",
  "Whenever pack, build-image or compress reports success, the output file (as given, or named after the source and in the working directory) holds the complete image of the source. If any read of the source or write of the output fails or comes up short at any point, including the very last buffered write, the command reports failure.",
  ["fault_sequences", "inputs"], "every single I/O call failing (error or short count) during the command, and source files shrinking or vanishing between listing and copying",
  "Tests run on a healthy file system only.",
  [CLI+"cmd_pack.rs", CLI+"cmd_build_image.rs", CLI+"cmd_compress.rs", CORE+"write/img.rs", CORE+"write/fs/stdfs.rs", CORE+"write/fs/xdvdfs.rs", CORE+"blockdev.rs"],
  [("error propagation through the write path", CORE+"write/img.rs"), ("buffered output", CLI+"cmd_pack.rs")],
  ["process exit status", "output file"])
p("C12", "The source is never lost or modified",
  "No command modifies its source directory or image; the extract-xiso rewrite mode moves the original aside first, and at every instant, whatever I/O call fails or wherever the process is killed, a complete copy of the original contents exists in the original, the set-aside file or the finished output. The set-aside original is deleted only on request and only after the replacement is complete, and packing onto the source itself or into the source directory is refused before anything is changed (build-image, whose output may lie in its source directory, refuses an output that is itself a file it maps).",
  ["crash_points", "fault_sequences", "inputs"], "all system-call boundaries as kill points, all single failing calls, all ways to name the output relative to the source",
  "Tests never fail or kill a command, and never point the output at the source.",
  [CLI+"exiso_compat.rs", CLI+"cmd_pack.rs", CLI+"cmd_compress.rs", CLI+"img.rs"],
  [("rename aside, pack, then delete", CLI+"exiso_compat.rs exiso_repack"), ("same-path and containment checks", CLI+"cmd_pack.rs cmd_pack_path")],
  ["file system contents after every crash or fault point"])
p("C13", "Unrepresentable sources are rejected, never mangled",
  "A source that cannot be represented (a name over 255 bytes in its on-disk encoding, or not encodable, two names in one directory equal ignoring ASCII case, a directory whose entries exceed the addressable table, a file of 4 GiB or more, more data than sectors can address, an entry that is neither file nor directory) is refused with an error, not a panic and not an image that misses, merges or truncates entries. A source inside these limits, up to the exact boundary, is accepted.",
  ["inputs"], "all sources around each limit, at any position in the tree and in any listing order",
  "Only the AVL duplicate insert is unit-tested; no limit is tested end to end.",
  [CORE+"write/dirtab.rs", CORE+"write/img.rs", CORE+"layout.rs", CORE+"write/sector.rs", CORE+"write/fs/stdfs.rs"],
  [("name length, encoding, duplicate, table offset and size checks", CORE+"write/dirtab.rs, "+CORE+"layout.rs, "+CORE+"write/img.rs")],
  ["result of packing"])
p("C14", "Path remapping follows the map rules",
  "With map rules, the image contains exactly the host entries selected by the rules, at the rewritten paths, with the host files' bytes: for each entry the nearest enclosing path matched by any rule decides; among the rules matching it the first positive one applies unless a later exclusion cancels it, and a positive rule after the exclusion re-includes. Substitutions insert the matched glob parts (index 0 the whole matched path), contents of a matched directory follow it, and the dry-run listing equals what is packed. A malformed substitution (an unclosed brace, or anything but digits inside) is refused.",
  ["inputs", "configurations"], "all rule lists and host trees, provided no two selected entries are rewritten to the same place",
  "One end-to-end case with seven rules; comparison of the top level only.",
  [CORE+"write/fs/remap.rs", CORE+"write/fs/mod.rs", CLI+"cmd_build_image.rs"],
  [("glob matching, rewriting and overlay trie", CORE+"write/fs/remap.rs RemapOverlayFilesystem::new")],
  ["overlay listing", "bytes of the produced image"])
p("C15", "Image checksums depend on contents only and detect any change",
  "The content checksum is the same for every image holding the same paths and file bytes, however it is laid out, offset, repacked or compressed, and it changes whenever one file's bytes change, a file or directory is added or removed, or one is renamed. It equals the published construction, SHA3-256 over the paths in byte order each followed by its file's data, so results stay comparable between versions.",
  ["inputs", "configurations"], "all pairs of layouts of the same tree; all single-point changes of a tree",
  "No test computes a checksum.",
  [CORE+"checksum.rs", CLI+"cmd_read.rs"],
  [("sorted path order", CORE+"checksum.rs")],
  ["checksum value", "CLI output"])
p("C16", "A mounted image behaves as a faithful read-only file system",
  "For every sequence of lookup, getattr, readdir and read requests on a mounted image, replies match the image: names resolve ignoring ASCII case to the right entry and absent names give ENOENT, sizes and types are right, reads return exactly the requested part of the file, and a directory listed in any number of pieces with any buffer sizes yields each entry exactly once. An entry keeps one inode number, distinct from every other entry's, however it is reached, and opening for writing is refused. Where the image cannot be read (any more), a reply is exact or an error, never a partial listing or read and never ENOENT for an entry that exists.",
  ["histories", "inputs"], "all request sequences up to a depth, all read ranges, all readdir buffer sizes and resume points, over bounded images",
  "The daemon has no tests.",
  ["xdvdfs-fsd/src/img_fs.rs", "xdvdfs-fsd/src/main.rs", CORE+"read.rs", CORE+"layout.rs"],
  [("inode cache", "xdvdfs-fsd/src/img_fs.rs FuseFilesystemCache"), ("readdir cursor", "xdvdfs-fsd/src/img_fs.rs readdir")],
  ["FUSE replies of the daemon process"],
  state=[("inode table", "inode to entry and entry to inode maps grown by lookup and readdir", "xdvdfs-fsd/src/img_fs.rs FuseFilesystemCache")])
p("C17", "Device and source errors always surface",
  "If a block device or source file system reports an error at any one call during any library operation (open, list, scan, look up, read, checksum, pack, repack, remap), that operation returns an error; it never panics and never returns a partial result as success (an operation that does not depend on the failing call may still return its exact result), and a lookup never mistakes the failure for an absent entry. An operation in which no call failed returns the correct result.",
  ["fault_sequences"], "every operation, every call of that operation failing",
  "No test injects a device error.",
  [CORE+"read.rs", CORE+"layout.rs", CORE+"checksum.rs", CORE+"write/img.rs", CORE+"write/fs/xdvdfs.rs", CORE+"write/fs/remap.rs", CORE+"write/fs/sector_linear.rs", CORE+"blockdev.rs"],
  [("error mapping with ?", "all modules")],
  ["return values of the library API"])
p("C18", "Name order is one total, ASCII-case-insensitive order",
  "The order of names is a total order: antisymmetric, transitive, and equal exactly for names that differ only in ASCII letter case. It compares upper-cased characters in code order with a prefix before its extensions, so entries written by the packer are found by the reader and by the console.",
  ["inputs"], "all pairs and triples of names",
  "Three unit tests sort twelve fixed names.",
  [CORE+"util.rs", CORE+"layout.rs"],
  [("comparison of upper-cased characters", CORE+"util.rs cmp_ignore_case_utf8")],
  ["comparison result", "order of packed entries"])
p("C19", "Block devices read and write exactly the addressed bytes",
  "On every supplied block device (byte slices, boxed slices, files, buffered files, offset wrapper, sector-linear device), a successful write stores the buffer at exactly the given offset and changes nothing else, and a successful read fills the whole buffer with the bytes at the given offset. A request outside the device returns an error and leaves it unchanged, short reads of the underlying stream are completed, and the reported length is the end of what was written (rounded up to a whole sector on the sector-linear device).",
  ["histories", "inputs"], "all operation sequences up to a depth over boundary offsets and lengths, with all short-read patterns up to a bound",
  "No test touches the block device implementations beyond reading empty files.",
  [CORE+"blockdev.rs", CORE+"write/fs/sector_linear.rs", CORE+"write/fs/stdfs.rs"],
  [("bounds checks and seeks", CORE+"blockdev.rs")],
  ["device contents after each operation"])
p("C20", "Pack progress events describe the image being written",
  "A successful pack reports each directory once as a directory and, apart from the root, once as an entry of its parent, and each file exactly once, with the sector where it really lies in the image, announces counts that match, reports a directory before its contents, and ends with the finished event, which is emitted only on success. The packing commands print each of these reports once, and where they count them, they count all of them.",
  ["inputs", "fault_sequences"], "all source hierarchies; all failing calls for the finished event",
  "No test observes the callback.",
  [CORE+"write/img.rs", "xdvdfs-cli/src/cmd_pack.rs", "xdvdfs-cli/src/cmd_build_image.rs", "xdvdfs-cli/src/cmd_compress.rs"],
  [("progress callback calls", CORE+"write/img.rs create_xdvdfs_image")],
  ["sequence of callback events against the decoded image"])
p("C21", "build-image honours its options and spec files equivalently",
  "For any list of map rules, building from command-line options and building from the spec file that image-spec generates from those same options give the same image at the same place, and the dry run lists the same mapping without writing anything. The output path is the explicit argument if given, else the output option or spec field relative to the source directory, else derived from the source directory name.",
  ["configurations", "inputs"], "all combinations of option sources, source path forms and output path forms, over bounded rule lists",
  "One rule list is tested, always with an explicit output path.",
  [CLI+"cmd_build_image.rs", CLI+"img.rs"],
  [("option and spec handling", CLI+"cmd_build_image.rs")],
  ["files created by the command"])
p("C22", "Results do not depend on sync/async build or poll schedule",
  "Every library operation gives the same result in the synchronous and the asynchronous build, and in the asynchronous build for every pattern in which device operations are pending before completing. Packing the same source twice gives byte-identical images.",
  ["schedules", "configurations"], "all pending patterns up to a bound at every device call; both builds; all operations",
  "The suite drives only always-ready futures, and the sync feature's tests do not even compile.",
  [CORE+"read.rs", CORE+"write/img.rs", CORE+"blockdev.rs", CORE+"Cargo.toml"],
  [("maybe_async expansion", "all async functions")],
  ["results of the library API"])
p("C23", "ls, tree, info and md5 report what is in the image",
  "For every well-formed image, ls (by walk or by scan) prints exactly the names in the chosen directory, tree prints every file and directory with its size and correct totals, info prints an entry's true name, offsets, location and attributes, and md5 prints for every file under the chosen path the MD5 of its bytes with its path. Raw and compressed images of the same source give the same output. What cannot be read is reported as a failure, never printed as a shorter answer.",
  ["inputs"], "all well-formed images and query paths, compressed or not",
  "None of these commands is tested.",
  [CLI+"cmd_read.rs", CLI+"cmd_info.rs", CLI+"cmd_md5.rs", CLI+"img.rs"],
  [("printing of listings", CLI+"cmd_read.rs, "+CLI+"cmd_info.rs, "+CLI+"cmd_md5.rs")],
  ["standard output of the commands"])
p("C24", "extract-xiso mode performs the requested jobs on the named paths",
  "In extract-xiso mode, create performs every listed job writing each image to its named or default place, extract unpacks every listed image into the chosen directory, list prints every image, and rewrite leaves at the original name, or inside the directory given with -d, an image with the same contents, keeping the original as .old unless deletion was requested. All spellings of the mode (flag, default extraction, program name) behave alike.",
  ["configurations", "inputs"], "all modes, with zero to three jobs and all option combinations",
  "One end-to-end case: single create, extract and in-place rewrite.",
  [CLI+"exiso_compat.rs", CLI+"main.rs", CLI+"cmd_pack.rs", CLI+"cmd_unpack.rs"],
  [("argument interpretation", CLI+"exiso_compat.rs")],
  ["files created by the command", "standard output"])
p("C25", "The browser front end packs, unpacks and compresses faithfully",
  "For every source folder or image chosen in the browser application, packing, compressing and unpacking give an image or tree with exactly the entries and contents of the source (from an image, the same bytes as the command line gives), at the chosen place and named after the source. Success is shown only if the output is complete: rejected promises, lack of space, sources that change, are truncated or are no images end with an error shown, and never with a crash, an endless operation, or an operation that is shown as running for ever. This holds in whatever order and after however many turns the browser delivers its results, and for every sequence of clicks, including repeated and dismissed ones: each operation that was started uses the source and destination chosen for it, and progress reaches, and never exceeds, the whole. Nothing but the chosen destination changes.",
  ["inputs", "schedules", "fault_sequences", "histories"], "all source trees and images; all completion delays; one rejected promise, or all from one on; every space limit; one change of a source file at every point; all click sequences up to the bound",
  "The web crate has no tests and needs a browser; completion orders, rejections and click sequences are unbounded.",
  ["xdvdfs-web/src/fs/mod.rs", "xdvdfs-web/src/fs/ciso.rs", "xdvdfs-web/src/fs/util.rs", "xdvdfs-web/src/ops/browser.rs", "xdvdfs-web/src/packing.rs", "xdvdfs-web/src/unpacking.rs", "xdvdfs-web/src/compress.rs", "xdvdfs-web/src/picker"],
  [("browser file system adapters", "xdvdfs-web/src/fs/mod.rs"), ("browser operations", "xdvdfs-web/src/ops/browser.rs"), ("workflows", "xdvdfs-web/src/unpacking.rs")])
p("C26", "The desktop application packs, unpacks and compresses faithfully",
  "For every source and destination, the pack, unpack and compress commands of the desktop application give the image or tree that the command line gives for the same source, at the chosen place (a compressed image within the chosen directory, named like its source, or at the chosen file name). A command reports success to the front end only if its output is complete: failing, short or interrupted I/O, full disks, truncated or invalid sources give an error message, and never a crash. Unpacking creates nothing outside the destination, and packing or compressing never overwrites the source, or writes into it. Progress events match what is done. The window runs the command for what was last chosen, once for each chosen destination, and shows success exactly for a command that succeeded; each event and reply reaches the operation it belongs to, and none that is over.",
  ["inputs", "fault_sequences"], "all source trees and images; one failing, short or interrupted I/O call; every size limit",
  "The desktop crate has no tests and is not built by the test suite; aliasing of source and destination, faults and hostile images are unbounded.",
  ["xdvdfs-desktop/src/pack.rs", "xdvdfs-desktop/src/unpack.rs", "xdvdfs-desktop/src/compress.rs", "xdvdfs-desktop/src/path.rs", "xdvdfs-web/src/ops/tauri.rs", "xdvdfs-web/src/ops/tauri.js", "xdvdfs-web/src/picker/tauri.rs", "xdvdfs-web/src/picker/tauri.js"],
  [("tauri commands", "xdvdfs-desktop/src"), ("calls of the window", "xdvdfs-web/src/ops/tauri.rs")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
