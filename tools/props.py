import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p("C01","Bytes compressed into an archive come back unchanged",
 "Any byte string added to an archive from memory, under any name, with any compression method the library offers and any header level it writes, is listed with its name, size and checksum and is returned byte for byte when it is decompressed. The bytes handed in are not modified.",
 ["inputs","configurations"],"all bodies (including empty, window-, block- and match-length-edge sizes), names, methods 0/1/5/6/7, header levels 0/1/2, generic and UNIX headers",
 "The tests compress one fixed file and never compare what comes back for a second body; a coder breaks on particular lengths, distances, code depths or block boundaries.",
 ["lha.go","slide.go","huf.go","dhuf.go","shuf.go","maketree.go","maketbl.go","bitio.go","append.go","extract.go","crcio.go","util.go"],
 [("LZ matcher and window update","slide.go: encode, updateDict, searchDict"),("block Huffman coder","huf.go: sendBlock, writePtLen, writeCLen; maketree.go"),("adaptive Huffman coder","dhuf.go"),("stored fallback","lhext.go: addOne; util.go: encodeStoredCrc")],
 ["Lha.CompressBytes","Lha.Headers","Lha.DecompresBytes"])
p("C02","Archived files and directory trees are restored as they were",
 "Archiving files, or whole directory trees recursively, and extracting the archive into an empty place recreates every file with its content, relative name, permissions and modification time, every directory (empty ones included) with its permissions and time, and every symbolic link with its target. In the generic header format, which has no UNIX fields, names, contents and times (to two seconds on levels 0 and 1) are still restored. When directories are to be ignored the files alone are restored, under their base names. A name or link target too long for the header is refused with an error, never cut.",
 ["inputs","configurations"],"all trees of regular files, directories and symbolic links; methods, header levels, generic or UNIX format, sorted or not, extract directory or current directory, time zones",
 "The tests archive a file which does not exist and extract one known archive without comparing anything on disk.",
 ["lhext.go","header.go","lha.go"],
 [("header from file information","header.go: initHeader"),("recursion","lhext.go: listFiles, findFiles"),("restoring metadata","lhext.go: adjustInfo, addDirinfo, adjustDirinfo"),("DOS time conversion","header.go: genericToUnixStamp, unixToGenericStamp")],
 ["Lha.Compress","CommandAdd","CommandExtract","Lha.Decompress"])
p("C03","Archives written are valid LHA and never larger than stored",
 "Every archive the library writes can be read by an independent implementation of the LHA format: header checksums and CRCs, sizes, names and time stamps are right, packed data decodes to the content within its declared size, and exactly one end mark closes the file. A member is compressed with the method asked for, or stored when that would not make it smaller, so packed data is never larger than the content, and repetitions within the method's window are found: no plain greedy packer of the method does much better.",
 ["inputs","configurations"],"all bodies, names, directory parts, methods, header levels, formats",
 "The tests only read archives with the code that wrote them, and a reader and writer wrong in the same way agree with each other.",
 ["header.go","lhext.go","slide.go","huf.go","dhuf.go"],
 [("header writers","header.go: WriteHeader, writeHeaderLevel0/1/2"),("fallback to stored","lhext.go: addOne"),("end mark","lhext.go: writeArchiveTail")],
 ["the archive file on disk"])
p("C04","Members made by other packers decode correctly, in every method",
 "A well-formed member compressed by any conforming packer in any of the supported methods (lh0 to lh7, lzs, lz4, lz5, pm0, pm2) decodes to exactly the content it was made from, whatever free choices the packer made, alone or among members of other methods, also while its tokens are dumped (DumpLzss), which tell that content. With ExtractBrokenArchive, lh4 to lh7 members of packers that took the window to start with zeros decode too.",
 ["inputs"],"all token sequences, code tables, block partitions and window references the formats allow; all mixes of methods in one archive",
 "The tests hold one archive of one method; the library itself never writes lh2, lh3, lh4, lzs, lz5 or pm2, nor most of the tables a packer may choose.",
 ["extract.go","slide.go","huf.go","dhuf.go","shuf.go","larc.go","pm.go","pmtree.go","pm2hist.go","maketbl.go","bitio.go"],
 [("decoders","slide.go: decode, decodeMethodC, decodeMethodP"),("code tables","maketbl.go: makeTable; huf.go: readPtLen, readCLen"),("adaptive trees","dhuf.go: swapInc, reconst, makeNewNode"),("PMarc history and trees","pm2hist.go, pmtree.go")],
 ["Lha.DecompresBytes","Lha.Headers"])
p("C05","Listed headers say exactly what the archive says",
 "For every well-formed archive with headers of levels 0 to 3 the members are reported in archive order, each once, with the name (directory part included), method, packed and original sizes, checksum, level, modification time, permissions, owner, group and their names that its header and extended headers hold. Unknown extended headers and the order of extended headers change nothing, and no field leaks from one member to the next. When case conversion is asked for, names of capitals from systems that know no other letters are reported in small ones, all others as they are.",
 ["inputs"],"all header levels, operating system codes, extended header sets and orders, name lengths, sequences of members",
 "The tests list one archive of one level and do not look at the fields.",
 ["header.go","lha.go"],
 [("header readers","header.go: GetHeader, getHeaderLevel0/1/2/3, getExtendedHeader"),("name conversion","header.go: convertFilename")],
 ["Lha.Headers","LzHeader.GetHeader"])
p("C06","Damage is detected, never passed off as good data",
 "When member data, a checksummed header or the length of an archive has been damaged, reading it reports an error unless the content is still what the member's checksum says: no operation that reads members succeeds with content of another length or checksum than declared, and a truncated archive is reported unless it was cut between two members, where nothing in the format tells. A damaged member is never silently skipped. Where the header keeps no checksum of the data, packed data that ends early, or whose code tables no encoder can have made, is reported all the same.",
 ["inputs"],"all bit flips, byte substitutions, bursts, swaps and truncations of all archives, in all methods and levels",
 "No test reads a damaged archive.",
 ["extract.go","lhext.go","header.go","crcio.go","bitio.go","util.go"],
 [("data CRC check","lhext.go: extractOne, extractOneStream"),("header checksum and CRC","header.go: getHeaderLevel0/1/2/3"),("end of packed data","bitio.go: nextByte; util.go: copyfile")],
 ["Lha.Headers","Lha.DecompresBytes","Lha.Decompress","CommandExtract","exit status of the command"])
p("C07","Hostile input never crashes, hangs or exhausts memory",
 "Whatever bytes an archive consists of, every operation on it (listing, verifying, decompressing, extracting, adding to it) returns with a result or an error: it does not panic, does not exit the program, does not loop for ever and does not use memory or time out of proportion to the size of the archive and of the content really in it.",
 ["inputs"],"all byte strings used as an archive or as the packed data of any method",
 "The tests open one valid archive.",
 ["header.go","lhext.go","extract.go","slide.go","huf.go","dhuf.go","shuf.go","larc.go","pm.go","pmtree.go","maketbl.go"],
 [("size checks of headers","header.go: getExtendedHeader, minExtendedSize"),("table validation","maketbl.go: makeTable; huf.go; pmtree.go: treeRebuild"),("stop at the first coding error","slide.go: decode; bitio.go: fail")],
 ["every exported operation"])
p("C08","Extraction never touches anything outside its directory",
 "Extracting any archive, however hostile its names, links and member order, creates, changes, replaces or removes nothing outside the directory extracted into, and does not follow symbolic links out of it, whether the links come from the archive or were there before.",
 ["inputs","histories","configurations"],"all member names, separators, header levels, symlink members and sequences of members; links already present; extract directory, current directory, forced, directories ignored",
 "No test extracts a hostile archive or looks outside of the target.",
 ["lhext.go","header.go"],
 [("traversal refusal","lhext.go: isDirectoryTraversal, extractName"),("symlink component check","lhext.go: makeNameWithPathcheck"),("new files only","lhext.go: openWithMakePath, removeOld, adjustInfo")],
 ["the file system outside the target directory"])
p("C09","Updating an archive keeps every other member intact",
 "After any sequence of additions and replacements an archive holds each name once, with the content last added under it; members not named in an update keep their bytes, header and order, and new ones take their place at the end, in the order given, or, when contents are sorted, in name order. This holds for archives made by other packers in any method and level, of names they hold more than once too, and with or without their end mark. The archive file keeps its permissions.",
 ["histories","inputs"],"all sequences of single, multiple and recursive additions with old or new handles, sorted or not, over archives made here or elsewhere",
 "No test adds to an existing archive.",
 ["lhext.go","lha.go"],
 [("merge","lhext.go: mergeOne, keepOldOne, copyOldOne"),("file order","lhext.go: orderFiles")],
 ["the archive file after each operation","Lha.Headers"])
p("C10","A crash during an update never loses the archive",
 "If the process dies at any moment while it creates or updates an archive, the archive path holds either exactly the old archive or the complete new one, never a mixture or part. When archived files are to be removed afterwards, each is still there or safely in the archive; when a backup is asked for, the old contents stay reachable.",
 ["crash_points","configurations"],"kill of the process before any file system call of creating, adding, replacing, moving into and backing up archives",
 "No test interrupts an operation.",
 ["lhext.go"],
 [("temporary file beside the archive, then rename","lhext.go: buildTemporaryFile, updateArchive"),("backup by link","lhext.go: buildBackupFile"),("removal last","lhext.go: removeFiles")],
 ["the directory after the kill"])
p("C11","Failed input and output is reported and does no harm",
 "When reading, writing, opening, renaming, removing or closing what was written fails, or an input or archive cannot be accessed, or an input is neither file, directory nor link, the operation reports an error (the command exits with a non-zero status) instead of success, and an existing archive keeps its old contents with no temporary file left beside it, unless only what follows its replacement (removing moved files) failed. Success means the whole result is in place, setting permissions, owners and times of extracted files and printing messages and listings aside.",
 ["fault_sequences","configurations"],"an error of any kind at any file system call of adding, extracting, listing and testing; missing and unreadable files and directories; failing readers and writers",
 "No test makes a file operation fail.",
 ["lhext.go","lha.go","util.go","crcio.go","bitio.go","append.go","slide.go","cmd/lharc.go"],
 [("first coding error kept","bitio.go: fail; slide.go"),("errors returned and temporary file removed","lhext.go: updateArchive, extractOne"),("exit status","cmd/lharc.go: main")],
 ["results of operations under injected faults","exit status"])
p("C12","Operations do not influence each other",
 "The result of an operation depends only on its arguments and the files it works on: not on what was compressed, extracted, listed or failed before in the same process, and not on operations running at the same time on other handles. Packing the same content with the same settings gives the same packed bytes, and archive operations running at the same time on separate handles are free of data races. An operation leaves the options as they were set.",
 ["histories","schedules"],"all histories of operations before an operation, including failed ones; all interleavings of operations on separate handles",
 "The tests run one operation at a time in a fixed order and never compare a result with that of another history.",
 ["lha.go","slide.go","huf.go","dhuf.go","shuf.go","append.go","maketbl.go","lhext.go"],
 [("lock around the coders","lha.go: codecMutex"),("initialisation of every coder","slide.go: decode, encode, initSlide; dhuf.go: startCDyn; huf.go: encodeStartSt1")],
 ["results in one process against a fresh process","Go race detector"])
p("C13","Reading changes nothing and leaves nothing behind",
 "Listing, verifying, testing, decompressing to memory or to the standard output, and dry runs leave the archive and every other file exactly as they were, with no file added. No operation, successful or not, leaves a file open or a temporary file behind.",
 ["inputs","histories"],"all archives, intact and damaged; all operations that read; sequences of hundreds of operations",
 "The tests do not look at the file system or at open descriptors.",
 ["lha.go","lhext.go"],
 [("archives opened for reading and closed","lhext.go: openOldArchive and its callers"),("temporary file removed on error","lhext.go: updateArchive")],
 ["directory snapshots","/proc/self/fd"])
p("C14","Existing files are only replaced when that was allowed",
 "When extraction meets an existing file it replaces it only if forced or if the answer to the question is yes, or all; on no, skip, an empty answer or no answer at all the file stays as it is, the other members are still extracted, and 'all' and 'skip' hold for the rest of that extraction only. What is not a regular file is never replaced without force, and a directory never.",
 ["inputs","histories"],"all sequences of answers, all sets of existing files, links and directories, forced or not",
 "The tests extract into an empty place.",
 ["lhext.go"],
 [("question and answers","lhext.go: inquireExtract, inquire, readAnswer, confirmExtract"),("replacement","lhext.go: removeOld, openWithMakePath")],
 ["target directory after extraction"])
p("C15","Streams give the same result however they deliver data",
 "Encoding, decoding and reading headers from streams give the same bytes, sizes and checksums whether the stream delivers data in one piece, byte by byte or in arbitrary pieces; the encoder takes its whole input and reports its size, checksum and the bytes it wrote, the header reader consumes exactly the header, and the decoder reports what it consumed, never more than the member's packed size, so that the next member can be read from the same stream.",
 ["inputs","schedules"],"all partitions of all streams by a reader; data returned together with the end of file; all methods",
 "The tests only use files, which fill every read.",
 ["append.go","extract.go","bitio.go","crcio.go","util.go","header.go"],
 [("complete reads","crcio.go: freadCrc; util.go: copyfile; header.go: GetHeader"),("packed size accounting","bitio.go: nextByte, putcode")],
 ["Lha.EncodeLzhuf","Lha.DecodeLzhuf","LzHeader.GetHeader"])
p("C16","The command does what its flags say, and its exit status tells",
 "The command line program adds, creates, updates, moves, lists, extracts, tests and prints as its options say, with the same archives and files as the library gives for the same settings. It exits with status 0 when everything asked was done and non-zero when an archive is missing or damaged, an option is invalid or the operation is not supported. A failure is explained on standard error, where nothing is said when all went well, missing and skipped files aside.",
 ["inputs","configurations"],"all combinations of commands and options over generated archives and files",
 "No test runs the program.",
 ["cmd/lharc.go","lhext.go"],
 [("option parsing","cmd/lharc.go: parseOption, parseSubOption, initVariable"),("exit status","cmd/lharc.go: main")],
 ["files, standard output and exit status of the program"])
p("C17","Asking for one member gives that member and no other",
 "In an archive of many members, decompressing a member (to memory or to a file), or extracting, listing or verifying a selection by name, yields exactly the members named, with their own contents, whatever their position, method and size; names are matched exactly. Asking for a name that is not there is an error for single members, and writes nothing. Extracted files lie under their own names below the directory extracted into, leading slashes, and the device of OS-9 names, taken off; directories that no member stands for and files stored without permissions get the usual ones.",
 ["inputs"],"all archives of several members, all selections, names that are prefixes of each other or differ in case",
 "The tests decompress the only member of their archive.",
 ["lha.go","lhext.go"],
 [("member search","lhext.go: extractWithHeader, extractBytesWithHeader, needFile, skipToNextpos")],
 ["Lha.Decompress","Lha.DecompresBytes","CommandExtract with a selection","CommandList"])
p("C18","Writing a header and reading it back is the identity",
 "A header written at level 0, 1 or 2, in generic or UNIX format, reads back with the same name, directory, link target, method, sizes, checksum, level and time (to two seconds where only the DOS field holds it) and, in UNIX format, the same permissions, owner, group and names; the reader consumes exactly the bytes written. Whatever follows the header is not touched. Sizes, names and link targets that a header cannot hold are refused, those it can hold are not; a bar in a link's own name is written as an underscore, one in its target is kept; when case conversion is asked for, generic headers hold the name in capitals.",
 ["inputs","configurations"],"all names up to the limits of each level, sizes, times from 1980 to 2106, modes, identifiers, time zones",
 "The tests never write a header and compare.",
 ["header.go"],
 [("writer","header.go: WriteHeader and writeHeaderLevel0/1/2, writeUnixInfo"),("reader","header.go: GetHeader")],
 ["WriteHeader","LzHeader.GetHeader"])
p("C19","Update options do what they promise, no more",
 "Dry runs change nothing; excluded names are never added; 'newer only' replaces a member only by a newer file and an automatic update considers exactly the files and directories archived; a fresh archive holds only what was added; the archive itself, however its name is spelled, is never added to itself nor moved away; 'move' removes exactly the files that were archived, after the archive is in place; a backup is the old archive, byte for byte.",
 ["histories","configurations"],"all combinations of the options over generated archives, trees and time stamps",
 "No test sets an option.",
 ["lhext.go"],
 [("options","lhext.go: updateArchive, mergeOne, findUpdateFiles, findFiles, removeFiles, buildBackupFile")],
 ["archive, directory and backup after the operation"])
p("C20","Archives inside self-extracting programs are read like plain ones",
 "An archive embedded behind a program stub in a file named like a program is listed, decompressed, extracted and updated as the bare archive would be, whatever the stub contains short of a valid header. An update writes a plain archive beside it and leaves the program file as it was; neither is added as a file. An archive that is not there yet is made under the name given, whatever it ends in.",
 ["inputs"],"all stubs up to the search limit, including misleading signatures; levels 0 to 2; all extensions of programs",
 "No test reads a self-extracting archive.",
 ["header.go","util.go","lhext.go"],
 [("search for the first header","header.go: SeekLhaHeader"),("file kinds","util.go: archiveIsMsdosSfx1"),("use by all readers","lhext.go: openOldArchive")],
 ["Lha.Headers","Lha.DecompresBytes","CommandExtract","CommandAdd"])
p("C21","The printed listing shows every member's facts and the totals",
 "The listing of an archive has one entry per selected member, in order, with its name (and link target), original size, ratio, modification time and, where the format has them, permissions and owner; the verbose listing adds packed size, method and checksum, and the last line the number of members and the sums of the sizes. Headers that cannot be read make it fail.",
 ["inputs","configurations"],"all archives of all header levels and operating system codes; short, verbose and long listings; selections",
 "The tests never list.",
 ["lhext.go"],
 [("listing","lhext.go: CommandList, listOne, printSize, listTailer")],
 ["standard output of CommandList"])
p("C22","What is printed is what was done",
 "Adding, extracting and testing print one line per member processed, naming it, in archive order and nothing else; members that are left alone are not mentioned, and nothing is printed of members after the one that failed. Quiet silences adding and extracting entirely, questions aside. A dry run names exactly the files that would be added, replaced or extracted, in that order. Contents of members reach standard output only when they are printed, and then exactly, each under its name unless Quiet; a question is asked only for a file that is in the way.",
 ["inputs","configurations"],"all archives and selections, all updates, with and without Quiet, in dry runs, with files in the way and with damaged members",
 "No test looks at what is printed.",
 ["lhext.go","indicator.go","extract.go","append.go"],
 [("progress","indicator.go: startIndicator, finishIndicator"),("printing and testing","lhext.go: extractOne"),("dry runs","lhext.go: mergeOne (ADD, REPLACE), inquireExtract")],
 ["standard output of CommandAdd, CommandExtract, Compress, CompressBytes, Decompress, DecompresBytes, Headers"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sc); assert len(x['title'])<=80,(x['id'])
print(len(P))
