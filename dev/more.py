MORECLAIM = {}
MORENA = {}
def claim(id, tech, note):
    MORECLAIM[id] = (tech, note)

prop('W01', 'Creating an archive never reports success after a failure',
 'When any operation that creating an ar, tar or EROFS archive depends on fails (listing, opening, describing, reading or closing-time flushing of a source entry, reading a link target, or writing to the destination), or when the library itself finds a reason to refuse an entry, the creation returns an error. No error is dropped, overwritten or mistaken for the end of the data.',
 ['fault_sequences', 'inputs'], 'a failure of any single underlying operation, at any point, for every source tree',
 'Tests write complete archives from sources and to destinations that never fail.',
 [AC, TC, W], [('error returns', 'arfs.Create, tarfs.Create, erofs.Create and everything they call')], ['the error returned by the three creation functions'])
claim('W01', 'property simulation (path-sensitive finite-domain dataflow with fault injection at every external call in the abstract)', 'All paths of the three creators with callees and closures in place; calls that cannot reach an external call are interpreted.')
prop('W06', 'A created archive is finished before success is reported; superblock last',
 'When creating an archive reports success, every buffering or trailer-writing layer between the library and the destination has been finished successfully (the tar trailer is written). The EROFS superblock is written on every successful path and only after everything else has been written, so an image whose creation failed half way is not recognised as an image.',
 ['fault_sequences', 'crash_points'], 'every path to success, and a failure or interruption at every write',
 'Readers tolerate a missing tar trailer, and tests never interrupt a write, so neither omission is visible to them.',
 [TC, W, AC], [('trailer', 'tarfs.Create'), ('superblock', 'erofs.(*writer).write')])
claim('W06', 'typestate analysis by property simulation', 'All paths of the three creators.')
prop('W11', 'Creating an archive closes every source file it opens',
 'Every file that creating an archive opens in the source file system is closed again before the next one is opened and before the creation returns, on success and on every failure.',
 ['fault_sequences', 'inputs'], 'every path, with a failure of any underlying operation at any point, for every source tree',
 'A leaked handle is invisible to a test on an in-memory source; with many files the process runs out of descriptors.',
 [AC, TC, W], [('open/copy/close', 'arfs.Create, tarfs.Create, erofs.(*writer)')])
claim('W11', 'typestate analysis by property simulation', 'All paths of the three creators.')

prop('R16', 'A failure while reading an archive is always reported as a failure',
 'When reading the underlying input fails, or a field of the archive cannot be decoded or is refused, every operation of the ar, tar and EROFS readers that needed it (opening, looking up, listing, describing, reading a link or content) returns an error. The failure is never turned into success with less data, into the end of the data, or into a missing file.',
 ['fault_sequences', 'inputs'], 'a failure of any single read or decoding step, at any point of any operation, for every archive',
 'Tests read intact archives from memory, where no read ever fails.',
 [A, T, E, R], [('error returns', 'arfs.Open, tarfs.Open, tarfs.(*FS).Open, erofs.(*Image), erofs.(*Inode), erofs.(*dirEntry)')], ['errors returned by the fs.FS methods of the three readers'])
claim('R16', 'modular property simulation (path-sensitive finite-domain dataflow with fault injection at every call in the abstract)', 'Every function with an error result, each judged for unknown arguments with its callees assumed to behave as they are themselves required to; parallel failures (a second fault after the first) are covered, alternative results of the failed call other than its byte count are unknown.')
prop('R04', 'A structure cut short by the end of the archive is reported as an error',
 'When the input ends inside a structure that an ar, tar or EROFS reader needs (the archive header, a member header, the superblock, an inode, a directory entry, a name, a link target), the operation that needs it fails. The missing bytes are never taken to be zero, the end is never taken for a clean end of the archive or of a directory, and the error is not a not-exist error; only an ar archive that ends exactly between two members, or a tar archive that ends between two entries, ends cleanly.',
 ['inputs'], 'every length the input can have been cut to, for every archive',
 'Tests read complete archives; which structure a truncation hits depends on the exact length.',
 [A, T, E, R], [('short reads', 'arfs.Open, arfs.checkAr, tarfs.Open, erofs.(*Image).bytesAt, erofs.(*Image).unmarshalFrom')], ['errors returned by the readers'])
claim('R04', 'modular property simulation with short reads in the abstract', 'Every read of a structure and every path after it; content of members handed out as readers is outside this property.')
prop('R17', 'Readers accept the end of the input reported along with the last bytes',
 'An input may report io.EOF together with the last bytes it was asked for, as the contract of io.ReaderAt allows. The ar, tar and EROFS readers treat such a read exactly like one that delivers the same bytes without io.EOF: no entry is lost and nothing fails because of it.',
 ['inputs', 'configurations'], 'every input that follows the contract of io.ReaderAt, for every archive',
 'Tests use bytes.Reader and os.File, which never report the end together with a complete read.',
 [A, T, R], [('reads', 'arfs.checkAr, arfs.Open, tarfs.(*readerWithOffset).Read, erofs.(*Image).bytesAt')], ['results of opening and reading'])
claim('R17', 'modular property simulation comparing what can follow a complete read with and without io.EOF', 'Every direct ReadAt call and every path after it.')
prop('R12', 'An entry has the same type however it is asked for',
 'For every entry of an ar, tar, EROFS or in-memory file system, of every type the format can hold, the type bits reported by the directory entry, the mode in its file information, and the is-a-directory answers of both agree, and they are those of the stored type. (Tar archives hold regular and sparse files, directories and symbolic links, the others are refused when opening.)',
 ['inputs'], 'every entry type that each format can store, reached through every directory entry and file information value',
 'Tests only hold regular files, directories and symbolic links, and compare only some of the answers.',
 [A, T, E, R, M], [('Type, IsDir, Info', 'arfs.Entry, tarfs.dirent, erofs.dirEntry, erofs.fileInfo, memfs.dirEntry')], ['fs.DirEntry.Type, IsDir, Info().Mode(), Info().IsDir()'])
claim('R12', 'constant propagation of every stored entry type through every type accessor (path-sensitive, callees in place)', 'Exhaustive over the entry types; answers that do not follow from the stored type are counted in the evidence and not judged.')
prop('W09', 'EROFS modes convert exactly in both directions',
 'Every combination of entry type, set-uid, set-gid, sticky and permission bits of a source entry is stored in the EROFS inode with the standard Unix encoding, for both inode sizes, and is read back as the same mode; the type predicates of an inode hold for exactly their type. A directory entry is stored with the EROFS type of the entry it names.',
 ['inputs'], 'all seven entry types, all combinations of the three special bits, each permission bit on its own and common combinations',
 'The test image holds a handful of modes, and an error made the same way in both directions survives every round trip.',
 [R, W, K], [('mode conversions', 'erofs.statModeFromFileMode, erofs.fileTypeFromFileMode, erofs.(*Inode).Mode, erofs.toInode, erofs.(*writer).dataForInode')], ['mode fields of the image', 'fs.FileInfo.Mode of a read image'])
claim('W09', 'constant propagation of every type and mode bit through the conversions, compared with the published encoding', 'Exhaustive over types and special bits; permission bits one at a time and in combinations (each bit is handled independently by masks).')
prop('W13', 'Creating an archive refuses entries its format cannot hold',
 'Creating an ar archive from a source with a directory, symbolic link, device, named pipe, socket or irregular file fails; so does creating a tar archive from a source with a socket or irregular file, and an EROFS image from a source with a device, named pipe or socket. Such entries are never skipped silently or stored as something else.',
 ['inputs'], 'every unsupported entry type, at any place in any source tree, in every state of the writer',
 'Tests only write regular files, directories and symbolic links.',
 [AC, TC, W], [('type tests', 'arfs.Create, tarfs.Create, erofs.(*writer).dataForInode')], ['the error returned by the three creation functions'])
claim('W13', 'constant propagation of every unsupported entry type through the creation functions (path-sensitive, callees in place)', 'All paths on which the type of an entry is asked for, with every underlying operation succeeding; archive/tar is taken to refuse sockets and irregular files as it documents.')

prop('M04', 'The in-memory file system refuses invalid names',
 'Every operation of the in-memory file system that takes a name refuses one that is not valid according to io/fs (rooted, empty, with dot or empty elements, ending in a slash) with an error that wraps fs.ErrInvalid, and then leaves the tree unchanged. No invalid name is silently taken for another, valid one.',
 ['inputs'], 'every name, for every operation and every tree',
 'There are infinitely many invalid names, and tests try one or two with one operation.',
 [M], [('name checks', 'memfs.(*FS).MkdirAll, WriteFile, Open, Sub')], ['the error, and the tree afterwards'])
claim('M04', 'property simulation with the answer of the name check as the typestate', 'All paths of the exported operations with callees in place.')
prop('M05', 'In-memory operations change only what they are asked to',
 'Writing a file gives a new file the permissions that were asked for, keeps those of an existing one, never replaces a directory and reports success only if the file was stored; making directories replaces nothing that exists, and fails if a file is in the way. Opening and taking a subtree change nothing, and fail with an error wrapping fs.ErrNotExist when any element of the name does not exist.',
 ['histories', 'inputs'], 'every history of operations before, as far as it shows in what each lookup finds',
 'Tests only create, and hardly ever run an operation over what another has left behind.',
 [M], [('directory maps', 'memfs.(*FS).MkdirAll, create, getDir, get, Open, Sub')], ['the tree after each operation', 'errors'])
claim('M05', 'property simulation with every lookup finding nothing, a directory or a file', 'All paths with callees in place, for every combination of lookup results; permissions that are computed rather than copied are not judged.')
prop('M06', 'A closed in-memory file stays closed',
 'Once a file handle of the in-memory file system has been closed, every later Read, Stat and Close of it fails with an error that wraps fs.ErrClosed, in whatever order and however often they are called.',
 ['histories'], 'every sequence of operations on a handle after it was closed',
 'A test can try a few sequences of calls, not all.',
 [M], [('closed flag', 'memfs.(*File).Read, Stat, Close')], ['errors of Read, Stat and Close'])
claim('M06', 'typestate analysis by property simulation', 'All paths of all sequences of up to three operations after Close.')
prop('W02', 'Creating an archive stores every entry of the source',
 'When creating an ar, tar or EROFS archive succeeds, every entry of the source (the root of a tar archive aside) has its header or inode in the archive and every regular file also its content; in a tar archive every entry has its full path and every symbolic link its target, and in an EROFS image every directory lists all its entries. No entry of a supported type is left out because of its name, size, mode or place, because of what came before it, or by ending early.',
 ['inputs'], 'every source tree of entries of supported types',
 'An entry can be left out for reasons that no sampled tree happens to meet: a name, a size, an earlier entry.',
 [AC, TC, W], [('loops over the entries', 'arfs.Create, tarfs.Create, erofs.(*writer).populateInodes, writeMetadata, writeData, dataForInode')], ['the entries found in the archive'])
claim('W02', 'property simulation of the creation functions with the events of every loop iteration as the typestate', 'All paths with callees in place for sources of one entry type at a time (the type an unknown entry has does not change which events an iteration must have), with every underlying operation succeeding (failures are W01); that the bytes copied are the right ones is not decided.')
prop('R13', 'A missing name is reported as missing, and nothing else is',
 'When any element of the name given to Open, Stat, ReadDir, ReadLink or StatLink of an ar, tar or EROFS file system does not exist, the operation fails with an error that wraps fs.ErrNotExist. In an ar or tar archive a name that exists is never reported that way, and no other failure (an unreadable or damaged archive) is in any of them; reading the target of an entry that is no symbolic link fails.',
 ['inputs'], 'every archive and every name, wherever in the name or behind which links the missing element is',
 'Callers branch on fs.ErrNotExist; tests ask for one missing name in one place.',
 [A, T, E, R], [('name look-ups', 'arfs.(*FS).Open, Stat; tarfs.resolveAt, StatLink, ReadLink; erofs.(*Filesystem).resolveLinks, erofs.(*Inode).Lookup, Readlink')], ['errors of Open, Stat, ReadDir, ReadLink, StatLink'])
claim('R13', 'property simulation with the outcome of every look-up (nothing found, found) and the identity of errors as the typestate', 'All paths of every operation; that the binary search compares the right names is not decided.')
prop('R05', 'Malformed headers are refused',
 'Opening an EROFS image fails if its magic is wrong, its block size is outside 512 B to 64 KiB, it uses an incompatible feature, or its checksum is enabled and wrong; reading an inode fails if it has extended attributes, an unsupported data layout or inline data that does not fit into its block, and listing or searching fails if the inode is no directory or the first name offset of a block is out of range. Opening an ar archive fails if its magic or the end of an entry header is wrong, or an entry has a negative size or a slash in its name; opening a tar archive fails if it has an entry that is no file, directory, hard or symbolic link (metadata of the format aside). Headers without such defects are not refused for the values of these fields.',
 ['inputs'], 'every value of each of these fields, with everything else unspecified',
 'Accepting an unsupported header means reading garbage without notice; the tests only read well-formed archives.',
 [A, T, E, R], [('header checks', 'erofs.(*Image).initSuperBlock, verifyChecksum, Inode; erofs.(*Inode).getDirent0, IterDirents, Lookup, Readlink; arfs.Open, parseArEntry, checkAr; tarfs.Open')], ['errors of Open, Inode, IterDirents, Lookup, Readlink'])
claim('R05', 'constant propagation: each malformed field value is followed along every path of the function that reads it', 'Boundary and representative values of each field (every data layout, every single incompatible feature bit, block sizes around both limits, tar types 1 to 127 and 255); a check the analysis never sees reading the field is reported in the evidence as not looked at, not as a violation.')
prop('R18', 'EROFS images are read from where the format puts things',
 'For every superblock and inode, the EROFS reader takes inodes, the parts of file content (blocks, then the inline tail), directory entries and their names, and link targets from exactly the offsets and with exactly the lengths that the on-disk format defines, and passes on names, types and inode numbers of directory entries unchanged and in order. A well-formed image is not refused there.',
 ['inputs', 'configurations'], 'every block size from 512 B to 64 KiB, inode number, block address, file size and directory layout',
 'Tests read small images with one block size that this same writer made; an error in an offset shows only with large, differently laid out or foreign images.',
 [R], [('offset arithmetic', 'erofs.(*Image).Inode, (*SuperBlock).NidToOffset, BlockAddrToOffset, (*Inode).Data, getBlockDataInfo, getDirentName, IterDirents, Lookup, Readlink')], ['content, names and link targets of images from any writer'])
claim('R18', 'value numbering: symbolic terms of every offset and length compared with those of the format by normal form (path-sensitive, callees in place)', 'All paths with the fields of the format as unknowns; directories are followed for two blocks and up to six entries, after which iterations are alike; that the binary search picks the right entry is not decided.')
prop('R09', 'Metadata is read back as recorded',
 'The size, owner, group, link count, inode number and modification time (with nanoseconds) that an EROFS inode reports are exactly those stored in it, a compact inode having the build time of the image; name, time, owner, group, octal mode and size of an ar entry come from exactly the header columns that the format defines for them. File information reports the same size and modification time, never a truncated or rounded one.',
 ['inputs'], 'every value of each of these fields',
 'The values in test archives fit into every width and have no fractions of seconds.',
 [A, R, E], [('accessors', 'erofs.(*Image).Inode, erofs.(*Inode) accessors, erofs.(*fileInfo).Size, ModTime; arfs.parseArEntry, arfs.(*Entry).Size, ModTime')], ['fs.FileInfo.Size, ModTime', 'accessors of inodes and ar entries'])
claim('R09', 'value numbering: symbolic terms of what is reported compared with the fields and columns of the formats', 'All paths with the fields as unknowns, callees in place; times before 1970 are not in the samples; file modes are W09.')
prop('R19', 'Members of an ar archive are found where the format puts them',
 'Opening an ar archive reads its first header directly after the magic and every further one directly after the content of the member before it, padded to an even length; the content of a member is exactly as many bytes after its header as its size says. This holds for members of any size.',
 ['inputs'], 'every sequence of member sizes',
 'Large members and members behind them never occur in tests.',
 [A], [('offset arithmetic', 'arfs.Open')], ['content of members'])
claim('R19', 'value numbering: symbolic terms of every offset and length compared with those of the format', 'The first four headers with arbitrary sizes, after which iterations are alike.')
prop('R20', 'An ar archive that lacks content of a member is refused',
 'Opening an ar archive looks, for every member that is not empty, whether the archive has the last byte of its content, and fails if it does not or if that cannot be found out. So an archive that was cut short within the content of a member is never opened as if it were complete.',
 ['inputs'], 'every size of a member and every place where the archive ends',
 'Test archives are complete.',
 [A], [('look at the last byte', 'arfs.Open')], ['arfs.Open fails'])
claim('R20', 'value numbering: on every path, a read whose symbolic range covers the last byte of the content', 'Members behind the third are like those before; an archive that is looked at by other means than ReadAt is not decided.')
prop('R15', 'No part of a name is dropped or changed on the way to an entry',
 'Wherever a name is stored, written into an archive, looked up, compared or reported, it is the name as the archive or the caller gave it, apart from slashes, dot elements and white space around it. Letter case is kept, and no other leading, trailing or inner characters are cut off, replaced or used as separators.',
 ['inputs'], 'every name in an archive and every name asked for',
 'Tests use a few plain lower-case names without leading dots or unusual characters.',
 [A, T, E, R, M], [('normalisation of names', 'arfs.sanitizePath; tarfs.sanitizePath; erofs.splitPath'), ('look-ups', 'arfs.(*FS).Open, Stat; tarfs.(*dirent).findChild; erofs.(*Inode).Lookup; memfs.(*FS).get')], ['Open, Stat, ReadDir, Name'])
claim('R15', 'backward data-flow slices over strings from every look-up, store, comparison and report of a name, with a table of what string functions do to a name', 'Operations written as loops over single characters, and which of several look-ups decides, are not followed; white space around names is dropped by the readers on purpose.')
prop('R14', 'A directory of a tar archive keeps the entry it has there',
 'A directory that a tar archive has an entry for keeps that entry, with its permissions, owner and times, wherever in the archive it stands. Opening the archive neither replaces it by one made up as the parent of another member, nor passes it over because such a one is there already.',
 ['inputs', 'histories'], 'every order of the members and all metadata of the directories',
 'Tests look at the names of directories, and their archives list each directory before what is in it.',
 [T], [('default directory entries', 'tarfs.Open')], ['tarfs.FS.Stat'])
claim('R14', 'path-sensitive typestate over the opening of a tar archive: what may be stored between one header and the next', 'Directories only: a symbolic link that is also the parent of a member is replaced by a directory (see the list of what was left alone).')
prop('R21', 'Trouble is reported as an error, never by a deliberate crash',
 'No operation gives up by an explicit panic, by a fatal log message or by ending the process: what goes wrong is returned as an error. Content that an entry may lack (directories that have no entry of their own, the root) is not asked for without looking, and a conversion of a dynamic type that can fail is never made without a check.',
 ['inputs'], 'every archive, source and file system content',
 'Tests hold no corrupt inodes, and open no directory that its archive does not list.',
 [A, T, E, R, M], [('opening of entries', 'tarfs.(*FS).Open; arfs.(*FS).Open'), ('inodes', 'erofs.(*dirEntry).getInode'), ('children', 'memfs.(*FS).MkdirAll, get, create, fhDir.ReadDir')], ['every exported operation'])
claim('R21', 'dominance of checks over type-checked SSA, and points-to analysis of function-valued fields', 'Run-time panics that depend on numbers (indexes, slice bounds, make with a negative length) are not decided: see R01.')
NOTES = [
 ('R01', 'No archive makes a reader crash', 'No archive, however malformed, makes opening it or reading from it panic.', [A, T, E, R], 'Every index, slice bound, conversion and nil pointer would have to be bounded from values read from the archive; the interval and nullness analysis that was built (development checks X*) leaves too many obligations open in the EROFS reader to be either sound or quiet. The parts that can be decided are decided by R05 (malformed headers), R04, R16 and R18.'),
 ('R03', 'Memory use is bounded by the archive', 'What a reader allocates is bounded by the size of the archive and what the caller asks for.', [A, T, E, R], 'Needs numeric bounds on run-time sizes of archives that are only known as an io.ReaderAt; no static argument in reach bounds them.'),
 ('R06', 'Hard links lead to the file they were made from', 'A hard link in a tar archive, also one to another hard link, has the content and metadata of the file it leads to.', [T], 'Depends on which entries of a map, keyed by run-time names, are the same; the chain of links has no static counterpart. That following them ends is decided by R02.'),
 ('R11', 'Symbolic links are resolved as by a Unix file system', 'Relative targets are resolved from the directory that holds the link, absolute ones from the root of the archive, and parent elements never leave it.', [T, E], 'Which entry a chain of joined, cleaned and split run-time strings leads to is a property of values; a static check would fix how the code is written rather than what it does. R02 decides that it ends, R13 and R15 what happens to the names.'),
]
for i, t, st, f, why in NOTES:
    prop(i, t, st, ['inputs'], 'every archive', 'Tests use a few well-formed archives.', f, [('readers', 'Open and the methods of the file systems')], ['Open, Stat, ReadDir, ReadLink, Read'])
    MORENA[i] = why
prop('W03', 'Content that is not as long as recorded is refused',
 'If the content of a file turns out longer or shorter than the size already recorded for it, creating an ar archive or an EROFS image fails with an error instead of leaving a header and content that disagree.',
 ['inputs', 'histories'], 'every size recorded and every number of bytes copied',
 'Needs a source that changes while it is read, or that misreports sizes; test sources do neither.',
 [AC, W], [('copying of content', 'arfs.writeArData; erofs.(*writer).writeMetadata, writeData')], ['error of Create'])
claim('W03', 'value numbering: on every way to success the branches taken must make the number of bytes copied equal to the recorded size', 'Regular files, the last copy before success; tar archives rely on archive/tar, whose errors W01 covers.')
prop('W04', 'Headers of ar archives are written as the format defines them',
 'Every header that the ar writer emits is exactly 60 bytes with name, modification time, owner, group, octal mode and size of the file in the columns of the format, and the end mark; a value that does not fit into its columns makes the creation fail instead of being cut or shifting what follows.',
 ['inputs'], 'every name length, time, owner, group, mode and size',
 'Overlong values are rare, and shifted columns are only noticed by a reader.',
 [AC], [('header text', 'arfs.writeArHeader')], ['bytes of the archive', 'error of Create'])
claim('W04', 'symbolic text: the header is followed as a concatenation of padded numbers and rendered for inputs consistent with the branches taken', 'All paths; inputs are samples that include the limits of every column; names are of arbitrary length with one spelling; times before 1970 and negative owners are not in the samples.')
prop('W08', 'Metadata is recorded in EROFS images without loss',
 'Owner, group, link count of files, size and modification time (with nanoseconds) of every regular file that the source reports are stored in the inode unchanged, whichever inode format is chosen; a value that does not fit makes the creation fail, and an inode without a time field is only used for a file without a modification time.',
 ['inputs'], 'every owner, group, size and modification time',
 'Large identifiers, files beyond 4 GiB and odd times are not among the test files.',
 [W, 'erofs/owner_unix.go'], [('inode construction', 'erofs.toInode, getOwner, (*writer).firstPass')], ['inodes of created images'])
claim('W08', 'value numbering: the expression stored into each inode field compared with the fact about the source', 'All paths for regular files, callees in place, owners from syscall.Stat_t and tar.Header; link counts of directories are not decided.')
prop('W15', 'Inodes and content are written where the image says they are',
 'In a created EROFS image every inode is at the offset that the metadata address in the superblock and its number give, and the content of a file is directly behind its inode or at the block address that its inode records.',
 ['inputs'], 'every inode number and block address, including those whose byte offset exceeds 32 bits',
 'Offsets above 4 GiB or in a second metadata block never occur in small test images.',
 [W], [('write offsets', 'erofs.(*writer).writeMetadata, writeData, write')], ['bytes of created images'])
claim('W15', 'value numbering: the offset of every write compared with the expression over superblock and inode that the format defines', 'All paths for regular files; which inode belongs to which file is not decided.')
prop('W16', 'Nothing in a created EROFS image overlaps',
 'The inodes, inline contents and data blocks that the EROFS writer allocates for regular files never overlap each other, inline content never crosses the end of a block, and the recorded number of blocks covers all of them; what does not fit into the address ranges of the format is refused.',
 ['inputs'], 'every number, order and size of files, by induction over the files already placed',
 'Overlaps depend on how sizes add up; a test tree has only a few.',
 [W], [('allocation', 'erofs.(*writer).firstPass, write, offsetToNID, roundUp')], ['bytes of created images', 'error of Create'])
claim('W16', 'value numbering of one arbitrary iteration of the allocation (inductive invariant: the sums before and after it bound what it gives out)', 'Invariant checked on inputs that are consistent with the branches taken, with samples around block, slot and range limits; sizes of directories and link targets are not followed, which go through the same code.')
prop('R02', 'Every operation ends',
 'No input makes an operation run forever: every loop of the library comes to an end after finitely many rounds, and every recursion (such as the one over symbolic links) is limited in depth, whatever archive, image, source file system or name it is given, provided that the readers and file systems it is handed answer every call.',
 ['inputs', 'configurations'], 'every archive, image, name and source, including cyclic links and huge counts, on Linux and Windows',
 'The inputs that hang are cycles, huge counts or other operating systems, none of which the tests contain; a test that hangs gives no verdict.',
 [A, AC, T, TC, E, R, W, M], [('loops and recursion', 'every loop of arfs, tarfs, erofs, memfs; tarfs.resolveAt, erofs.(*Filesystem).resolveLinks')], ['whether an operation returns'])
claim('R02', 'ranking functions: every way round every loop consumes something finite or lowers a measure that a branch bounds; recursive calls likewise, by following the function from arbitrary arguments', 'All loops and recursive calls of the library; shapes that the analysis does not recognise are counted in the evidence as not recognised. Cycles that go through calls of the caller\'s own code (file systems, writers) are not looked at, and tree walks (fs.WalkDir) are taken to be over finite trees.')
prop('W14', 'No result depends on map order, clock or randomness',
 'Creating an archive from the same source twice makes the same writes in the same order, and opening the same archive twice gives the same tree with the same listings: nothing that the ar, tar and EROFS packages return, write or store depends on the iteration order of a map, the clock or random numbers. Listings of a memory file system have one order too, whose files take only their modification times from the clock.',
 ['inputs', 'schedules'], 'every archive, source and directory, and every order in which a map may be iterated',
 'The runtime picks the order of map iterations at random; with the few entries of a test the right order is often found by chance.',
 [A, AC, T, TC, E, R, W, M], [('map iterations', 'every range over a map in arfs, tarfs, erofs, memfs'), ('clock and randomness', 'calls of time, math/rand, crypto/rand')], ['bytes of created archives', 'tree and listings of opened ones'])
claim('W14', 'effect and taint analysis: what an iteration of a map may do is limited to effects that commute, and lists filled in map order must be sorted on every way before use', 'All map iterations and all calls of clock and random sources in the library; which of several errors is reported is not compared.')
prop('R10', 'Listings are complete and in order',
 'Listing a directory of an ar, tar or EROFS archive returns every entry exactly once, whatever its name, type, size or place, and of an EROFS directory neither "." nor ".."; listing a memory file system leaves out no child because of its name or kind. The lists of ar archives, tar archives and memory file systems are in ascending byte order of the names, for every set of names.',
 ['inputs'], 'every directory and every pair of names',
 'Which names, types or sizes are left out or sorted wrongly is a matter of the code, and the trees of the tests have few and plain names.',
 [A, T, E, M], [('listings', 'arfs.(*FS).ReadDir, tarfs.(*FS).ReadDir, erofs.(*Filesystem).ReadDir, memfs.(*fhDir).ReadDir'), ('comparisons', 'the functions given to the sorts in them')], ['fs.ReadDir', 'fs.WalkDir'])
claim('R10', 'property simulation of each iteration over the entries; abstract interpretation of every comparison over the two possible orders of two names', 'Iterations are judged one by one, for all entries (EROFS: also for constant names around "." and ".."); a comparison that is not shown right for all names counts as wrong only with a pair of names that shows it. In EROFS the order is that of the image (R18). Where portions of memory directories begin and end is M07.')
prop('W05', 'Directories of created EROFS images are sorted and self-consistent',
 'In a created EROFS image the entries of every directory, "." and ".." included, are in ascending byte order of their names, each entry keeps its own name, and no entry is left out. In every block of a directory, the offset of each name is where that name is written, directly behind the entries and the names before it, and a block holds no more than fits into it together with the end of its last name. A name that is longer than the 255 bytes of the format is refused.',
 ['inputs'], 'every set of names, of every length, and every number of entries and blocks',
 'The small directories of the tests fit into one block with room to spare, and have no names that sort before ".".',
 [W], [('order', 'erofs.(*writer).dataForInode, direntsByName'), ('encoding', 'erofs.encodeDirents, splitIntoDirentBlocks')], ['bytes of created images', 'listing and lookup in them'])
claim('W05', 'induction variables of the encoding loops compared with what the format demands; abstract interpretation of the comparison of the sort; dominance of the sort over the encoding', 'Offsets and sizes for all lengths of names. Another shape of these loops is reported as not recognised and raises no alarm.')
prop('W07', 'Entries of created EROFS images lead to the right files',
 'In a created EROFS image every directory entry has the number of the inode that was made for the file at its path: "." that of the directory itself, ".." that of its parent, and any other name that of the entry of the source. The type in the entry is that of the entry of the source.',
 ['inputs'], 'every tree, with files of equal names in different places, and every type that images can hold',
 'An entry that leads to another file of the same name shows only if the tree has one, and readers of this library never look at ".".',
 [W], [('entries', 'erofs.(*writer).dataForInode, nidForPath')], ['bytes of created images', 'content found by path'])
claim('W07', 'property simulation of the functions that make entries, for constant paths, in which every inode number carries the path it was looked up with', 'Directories at three depths, three types; that the table has the right inode for each path is W15 and W16. Not decided for Windows, where the paths of entries are joined with path/filepath.')
