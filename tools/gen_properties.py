#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
CDF="netcdf/cdf/cdf.go"; CW="netcdf/cdf/cdfwriter.go"; H5="netcdf/hdf5/hdf5.go"; HW="netcdf/hdf5/hdf5writer.go"; WU="netcdf/hdf5/writer_utils.go"
RD="netcdf/hdf5/readers.go"; SL="internal/slicer.go"; OM="netcdf/util/orderedmap.go"; NC="netcdf/netcdf4.go"; API="netcdf/api/api.go"; FV="internal/fillvalue.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","A CDF file written by this library reads back exactly as written",
 "The CDF writer accepts every content of the supported types, and once Close has returned nil the file opens again with this library and yields the same variables in the same order with the same dimension names, element types, shapes and values bit for bit (strings are NUL-padded to their character dimension), and the same attributes in the same order with one-element attributes returned as scalars. This holds for every mixture of types (including those that select the 64-bit data format), ranks, lengths that need padding, and numbers of variables and attributes.",
 ["inputs","programs"],"every file content (variables x types x shapes x shared dimensions x attributes, global and per variable, in any order of calls)",
 "Round-trip tests write a fixed set of variables once per type; offsets, padding, version selection and shared dimensions interact between several variables and attributes, so each combination is a different file.",
 [CW,CDF],[("writeAll/writeVar/computeVarSize offset and padding arithmetic",CW),("readHeader/getVarCommon/convert",CDF)],
 ["netcdf.OpenWriter(KindCDF)..Close, then netcdf.Open and every read call"])
p("C02","Files from the CDF writer conform to the classic/CDF5 on-disk format",
 "Every file the CDF writer closes successfully is a well-formed netCDF classic-family file: an independent reader of the published format (and the reference C library) decodes from its bytes exactly the dimensions, attributes, variables and values that were given to the writer. In particular sizes and begin offsets in the header are the true ones, data regions do not overlap, every required padding byte is present, and 64-bit-data types only occur in a file marked as such.",
 ["inputs","programs"],"every accepted file content",
 "The tests only look at the bytes through this library's own reader (or ncdump on a few files), so a writer/reader pair of compensating errors, or a wrong size field that the reader ignores, goes unseen.",
 [CW],[("writeAll, writeVar, writeAttributes, pad",CW)],["bytes of the closed file"])
p("C03","The CDF reader decodes every well-formed classic-family file",
 "For every well-formed netCDF file of the classic, 64-bit-offset or 64-bit-data format, including files with a record (unlimited) dimension and any number of record variables, the reader returns exactly the dimensions, attributes, variables, shapes and values that the format specification assigns to those bytes.",
 ["inputs","configurations"],"every format version x number and type of fixed and record variables x record count x variable order x shapes x attributes, including layouts this library's own writer never produces",
 "Most tests read files made by this library's own writer, which never writes version 1 or record variables; a handful of ncgen fixtures fix one record layout each.",
 [CDF],[("readHeader record-size and special-case computation; newRecordReader; convert",CDF)],["netcdf.New / Open and all read calls"])
p("C04","An HDF5 file written by this library reads back exactly as written",
 "Whatever groups, dimensions, variables and attributes the HDF5 writer accepts, once Close has returned nil the file opens again with this library and every group yields the same subgroups, the same variables with the same dimension names, element types, shapes and values bit for bit, and the same attributes with the same values (HDF5 text ends at a NUL).",
 ["inputs","programs"],"every file content: group trees x variables x types x ranks x strings x dimension sharing x attributes",
 "The writer tests cover one file per feature; heap offsets, object addresses, header sizes and dimension-scale references depend on the combination and order of everything else in the file.",
 [HW,WU,H5],[("layout of object headers, global heap and dimension scales at Close",HW),("object header parsing and data readers",H5)],
 ["netcdf.OpenWriter(KindHDF5)..Close, then netcdf.Open and every read call"])
p("C05","Files from the HDF5 writer are valid netCDF-4/HDF5 files",
 "Every file the HDF5 writer closes successfully is opened by the reference HDF5 and netCDF-4 implementations without error, and they report the same groups, dimensions, variables, types, shapes, values and attributes that were given to the writer (netCDF-C as far as its data model can name them: not anonymous user-defined types, variables of which only some dimensions are named, or names above its limit).",
 ["inputs","programs"],"every accepted file content",
 "The tests check interoperability by running h5dump/ncdump on a few files; a header-size or checksum slip that depends on name length, attribute count or nesting is only exposed by other contents.",
 [HW,WU],[("superblock, object header, link, datatype, dataspace, layout and heap encoders; checksums",HW)],["bytes of the closed file, read by libhdf5 and libnetcdf"])
p("C06","Chunked, filtered and fill-backed HDF5 data reads as the logical array",
 "For every dataset stored contiguous, compact or chunked, with any supported combination of deflate, shuffle and Fletcher-32 filters, any chunk shape (including partial edge chunks and multi-level chunk indexes) and any subset of chunks unallocated, reading it returns the logical array that was stored, with the fill value in the parts never written.",
 ["inputs","configurations"],"dataset extents x chunk shapes x filter pipelines x element types and byte orders x which chunks exist x file format generation",
 "Tests read a few chunk layouts where data happen to line up; segment intersection, edge-chunk clipping and filter ordering depend on the relation of extent to chunk shape in every dimension.",
 [H5,RD,"netcdf/hdf5/segment.go"],[("newRecordReader segment assembly; readBTreeNodeAny; filter readers",H5+", "+RD)],["GetVariable / VarGetter.Values on files written by libhdf5"])
p("C07","User-defined and variable-length HDF5 types are decoded faithfully",
 "For every dataset or attribute whose type is a fixed or variable-length string, an enumeration, an opaque, a compound (with any member layout and nesting), an array, or a variable-length sequence, the reader returns the member values that are stored, and the type descriptions it reports describe that type.",
 ["inputs","configurations"],"datatype trees up to a depth x byte orders x offsets and padding inside compounds x scalar or array dataspaces",
 "The type tests read one fixed fixture per type class; member offsets, padding, nesting and heap references vary independently in real files.",
 ["netcdf/hdf5/compound.go","netcdf/hdf5/enum.go","netcdf/hdf5/opaque.go","netcdf/hdf5/vlen.go","netcdf/hdf5/array.go","netcdf/hdf5/string.go","netcdf/hdf5/types.go",H5],[("per-class parse/alloc functions",  "netcdf/hdf5/*.go")],["GetVariable, attribute Get, ListTypes/GetType/GetGoType"])
p("C08","Every slice request returns exactly that part of the variable",
 "For every variable of either format and every in-range begin and end, the slice call and its multi-dimensional form return exactly the corresponding sub-array of the variable's full value, with the same element type, for every rank, storage layout and filter.",
 ["inputs","configurations"],"every variable layout x every (begin,end) pair in every dimension",
 "Slice tests take a few windows of one contiguous or one chunked variable; the byte offsets depend on begin, chunk boundaries, the record size and the rank.",
 [SL,CDF,H5],[("getSlice/getSliceMD and SliceMD",CDF+", "+H5+", "+SL)],["VarGetter.GetSlice, GetSliceMD, Values"])
p("C09","Slice requests outside the variable are refused",
 "A slice request that is not inside the variable (negative begin, end beyond the length, end before begin, or the wrong number of bounds), in either format, returns an error: it never returns data, never panics, and leaves later valid requests working. (What a scalar, which has no extent, answers to a request for one element is not specified; any other request on it is refused.)",
 ["inputs"],"every out-of-range combination of bounds over every kind of variable",
 "No test asks for an out-of-range window except end<begin.",
 [SL,CDF,H5],[("argument checks in getSlice/getSliceMD",CDF+", "+H5)],["VarGetter.GetSlice, GetSliceMD"])
p("C10","Reading never changes what later reads return",
 "The answer of every read call on an open file depends only on the file and the call's arguments: no sequence of earlier reads, slices, lookups (successful or failing), group openings or type queries on the same handle, or on other handles of the same file, changes what a call returns, and values already returned are never modified by later calls.",
 ["histories"],"all sequences of read operations up to a depth over all call kinds",
 "Tests make each call once on a fresh handle, so state left behind by one call (cached chunk lists, slice windows, file position, type registries) is never observed by the next.",
 [H5,CDF,SL],[("per-object caches and shared file position",H5)],["all Group, VarGetter and AttributeMap calls"])
p("C11","Results do not depend on how the byte source delivers its bytes",
 "For every source that honours the io.Reader contract (short reads, data together with EOF, any read granularity), opening and reading a file gives exactly the results obtained from a source that always fills the buffer.",
 ["fault_sequences","inputs"],"every placement of short reads, and of data returned together with EOF, among the reads of a session",
 "All tests read from *os.File, which never returns short reads in the middle of a regular file.",
 [RD,CDF,H5,"netcdf/util/binary.go",NC],[("raFile.readNoLock, ReadAt, resetReader, MustReadBE",RD)],["netcdf.New with a custom ReadSeekerCloser"])
p("C12","An I/O error while reading surfaces as an error, never as wrong data",
 "If the byte source fails at any point while a file is opened or read, the affected call returns an error, or the right answer if it did not need the failed operation (it does not panic and does not return data that differs from the file's; calls that have no error result answer from what was read before), and once the source works again the same call on a handle that is still open succeeds with the right data.",
 ["fault_sequences"],"every single read or seek of a session failing, for every session in a set of files and call sequences",
 "No test injects an I/O error.",
 [RD,CDF,H5,NC],[("thrower.RecoverError at API boundaries; fill-value readers that stand in at end of data",RD+", "+CDF)],["netcdf.New with a fault-injecting ReadSeekerCloser"])
p("C13","Group handles of one HDF5 file can be used concurrently",
 "When several goroutines read through different group handles of the same open HDF5 file, every call returns exactly what it returns when run alone, under every interleaving, without deadlock, data race or panic.",
 ["schedules"],"all interleavings of two or three readers at file-operation granularity up to a preemption bound",
 "Tests are single threaded.",
 [RD,H5],[("refCountedFile lock around seek+read pairs",RD)],["GetVariable/GetSlice/GetGroup/Close from several goroutines"],
 [dict(name="shared file offset",meaning="position of the one underlying file",where=RD)])
p("C14","A rejected writer call has no effect",
 "Over every sequence of writer calls, a call that returns an error leaves no trace: after Close the file contains exactly the variables, attributes and groups of the calls that returned nil, in call order where the format records an order, and is readable. Unsupported values, malformed names and names already in use are refused with an error by the call that receives them and never cause a panic.",
 ["histories","programs"],"all sequences of valid and invalid AddVar/AddAttributes/CreateGroup/Close calls up to a depth, for both formats",
 "Tests check that particular invalid calls return errors but not what the file contains afterwards, and never mix rejected with accepted calls.",
 [CW,HW],[("validation in AddVar/AddAttributes/CreateGroup",CW+", "+HW)],["Writer calls, then reading the file back"])
p("C15","Close reports success only if the complete file was stored",
 "If the file system refuses any part of the output (no space, size limit), the writer's Close returns an error; whenever Close returns nil the stored file is complete. The writer releases its file in both cases.",
 ["fault_sequences","crash_points"],"every byte position at which the output device can stop accepting data",
 "No test makes a write fail.",
 [CW,HW],[("Flush/Write/Close error propagation",CW+", "+HW)],["Writer.Close result vs stored bytes, open descriptors"])
p("C16","The underlying file is closed exactly once, when its last handle closes",
 "The file behind a set of handles (the root and every group obtained from it) stays usable until the last of them is closed and is then closed exactly once; failed opens through a file name leave no descriptor open and a failed New leaves the caller's file open; a redundant Close neither panics nor affects other handles.",
 ["histories"],"all sequences of open/get-group/close/read operations up to a depth",
 "Tests close each handle once, in order.",
 [H5,CDF,RD,NC],[("refCountedFile.reference/release, CDF.fileRefCount",RD+", "+CDF)],["Close count of the ReadSeekerCloser; process descriptor table"])
p("C17","Damaged or truncated input never crashes or hangs the process",
 "Opening a file of arbitrary bytes and reading everything reachable in it always returns, with values or with errors: it never panics, exits the process, loops forever or exhausts memory (a variable whose declared extent is more than the file can hold is read only up to a sane size by a caller, and an absurd one is refused).",
 ["inputs"],"every truncation point and every single-byte substitution (from a set of boundary values) of a corpus covering every structure the readers parse",
 "The tests feed a few hand-broken files; the parsers have hundreds of length, count, offset and type fields.",
 [H5,CDF,RD,"netcdf/hdf5/assert.go","netcdf/util/binary.go"],[("assert/fail and thrower recovery at API boundaries",H5+", "+CDF)],["netcdf.New plus every read call, in a worker process"])
p("C18","Corruption covered by a checksum is detected",
 "If any byte of a structure protected by a stored checksum (version 2+ HDF5 metadata, or chunk data with the Fletcher-32 filter) is altered, no read returns data or metadata that differ from the original as if they were valid: the calls that need the altered bytes fail, or results are unaffected.",
 ["inputs","fault_sequences"],"every byte of the checksummed structures x substituted values",
 "Tests only read intact files.",
 ["netcdf/hdf5/checksum.go",H5,RD],[("checkChecksum, fletcher32Reader",H5+", "+RD)],["netcdf.New plus reads on altered files vs the intact file"])
p("C19","Unwritten data reads as the fill value",
 "Every element of a variable that the file does not store reads as the variable's declared fill value if it has one, otherwise as the netCDF default fill value of its type (CDF) or the default stored in the file, which is zeros unless set (HDF5); elements that are stored never read as fill.",
 ["inputs","configurations"],"every element type x declared or default fill value x number of stored elements",
 "One test per type with a fully absent region.",
 [FV,CDF,H5],[("makeFillValueReader",CDF+", "+H5),("NewFillValueReader",FV)],["GetVariable, slices"])
p("C20","The ordered attribute map behaves as an insertion-ordered map",
 "Over every sequence of operations the attribute map lists each visible key exactly once in insertion order, returns for each key the last value added, keeps hidden keys out of the listing but retrievable, refuses construction from keys that do not match the values, and reports for each value the CDL and Go type that describes it; it never changes when the caller's own arguments change afterwards or when reads are made.",
 ["histories","inputs"],"all operation sequences up to a depth over a small key set, all supported value types and nestings",
 "Tests build each map once with distinct keys.",
 [OM],[("OrderedMap",OM)],["util.NewOrderedMap, Add, Get, Hide, Keys, GetType, GetGoType"])
p("C21","Exactly the valid netCDF names are accepted by the writers",
 "A writer accepts a variable, attribute or group name if and only if it starts with a letter or digit, contains no control character and no slash, and does not end with white space; both writers agree, and every accepted name is returned unchanged when the file is read. (Not specified: names with invalid UTF-8, unassigned or invisible format characters, and attribute names that HDF5 keeps for itself.)",
 ["inputs"],"all names up to a length over one representative of every character class, every position",
 "The name test lists a few valid and invalid names and calls the predicate directly.",
 ["internal/validname.go",CW,HW],[("IsValidNetCDFName, hasValidNames",CW+", "+HW)],["AddVar/AddAttributes/CreateGroup and reading back"])
p("C22","All views of a variable and its metadata agree",
 "For every variable in every readable file, the shape, length, dimension names, type names, values and attributes obtained through every call (variable read, variable getter, dimension queries, attribute maps and their type queries) are mutually consistent: the values have the reported shape and element type, the length is the first extent (1 for a scalar), and every listed name can be looked up. (An unlimited dimension may report 0 as its size.)",
 ["inputs","configurations"],"every variable and attribute of every file in an enumerated family of both formats",
 "Tests check individual accessors on individual files against literals.",
 [API,CDF,H5,SL,OM],[("GetVariable and GetVarGetter share getVarCommon/getDimensions/cast",CDF+", "+H5)],["all Group, VarGetter, AttributeMap calls"])
p("C23","Group paths resolve like absolute and relative names in a tree",
 "For every group tree, looking up an absolute or relative path from any group returns that group if it exists and an error otherwise; every group lists exactly its own children, and variables, dimensions and attributes of one group are never returned by another.",
 ["inputs","histories"],"all small group trees x all paths up to a length from every group",
 "Tests navigate one tree with a few paths.",
 [H5,HW],[("canonicalizePath, GetGroup, ListSubgroups",H5)],["GetGroup, ListSubgroups, ListVariables on each handle"])
p("C24","Listings and values are deterministic and in creation order",
 "For a file that records the order of its members, variables, subgroups, dimensions and attributes are listed in creation order; for every file, every listing and value is the same each time it is asked for, on every handle and in every process, regardless of hash-map iteration order and of the log level that was set.",
 ["schedules","inputs"],"all map iteration orders, all small sets of names and creation orders",
 "A test passes or fails by the luck of one random map iteration.",
 [H5,CDF,OM],[("sortChildren, sortAttrList, ordered maps",H5)],["List* and Keys calls on repeated opens"])
p("C25","Open recognises the format from the content and refuses everything else",
 "Opening by name or by file object chooses the reader by the file's content alone, gives the same result as the format's own open call, and returns an error (and no handle) for every source that is not a CDF or HDF5 file, including empty and unreadable sources.",
 ["inputs","configurations"],"all short byte strings over the signature alphabet, all prefixes of valid files, all open entry points",
 "Tests open valid files with the right call and one or two non-netCDF files.",
 [NC,CDF,H5],[("getKind dispatch; readHeader/readSuperblock signature checks",NC)],["netcdf.Open, netcdf.New, cdf.Open/New, hdf5.Open/New"])
p("C26","The two formats are interchangeable for content both support",
 "For every program of writer calls that uses only features common to both formats (numeric variables, scalar text, attributes), writing it as CDF and as HDF5 gives files whose reads (variables, dimensions, types, shapes, values, slices, attributes) are the same, so callers need not know the format. (How the two describe the shape of text in CDL is not part of this, nor is text that contains a NUL, where HDF5 text ends.)",
 ["programs","inputs"],"all common writer programs in the bounded family",
 "No test compares the two formats on the same content.",
 [API,CW,HW,CDF,H5],[("the api.Group and api.Writer contracts",API)],["the same reads on both files"])
p("C27","Copying a file through the API preserves it",
 "Reading everything from a file that either writer produced (with all dimensions named) and writing it back with the same writer yields a file that reads identically, and doing so again yields the same bytes; the writer never modifies the values, dimension lists or attribute maps it is given.",
 ["inputs","histories"],"every file in the enumerated families of C01 and C04, copied once and twice",
 "No test feeds values obtained from the reader to the writer.",
 [CW,HW,CDF,H5],[("AddVar/AddAttributes argument handling",CW+", "+HW)],["read, write, read; caller's arguments before and after"])
p("C28","HDF5 groups and attributes are found however the file stores them",
 "For every well-formed HDF5 file made of supported features, the reader lists and returns exactly the groups, variables, committed types and attributes (with their values) that the file contains, whichever of the format's ways of storing them is used: old symbol tables, links and attributes in object headers and their continuations, or fractal heaps with their indexes at any depth, with creation order tracked or not, and after members were deleted or added later.",
 ["inputs","configurations","histories"],"every number and size of links and attributes within bounds x every storage form x histories of deletions and late additions",
 "The fixtures have few members each, so indexes of several levels, heaps with indirect blocks, free space and continuation blocks hardly occur in them.",
 [H5],[("readSymbolTable/readSymbolTableLeaf/readLocalHeap",H5),("readBTreeInternal/readRecords/doDoubling/readRootBlock",H5),("readCommon/readContinuation",H5)],["listings, GetGroup, GetVariable and attribute maps of files made by libhdf5"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P),"properties")
