CLAIMS={
"C01":("exhaustive enumeration of bounded writer programs on the real writer and reader, judged by the program's own content as reference model",
 "Holds for every program of the bounded family; larger contents are only covered as far as the small-scope argument in DESIGN.md goes."),
"C02":("exhaustive enumeration of bounded writer programs; every output decoded by an independent strict decoder of the file format",
 "Holds for every program of the bounded family; trusts the decoder, which is cross-checked against libnetcdf."),
"C03":("exhaustive enumeration of well-formed files from an independent encoder of the format, each read by the real reader; the format specification is the model, bound to netCDF-C on every file",
 "Holds for every file of the bounded family; the encoder is checked against netCDF-C on each of them."),
"C04":("exhaustive enumeration of bounded HDF5 writer programs on the real writer and reader, judged by the program's own content as reference model; values of user-defined types come from files of the reference library",
 "Holds for every program of the bounded family; larger contents are only covered as far as the small-scope argument in DESIGN.md goes."),
"C05":("exhaustive enumeration of bounded HDF5 writer programs on the real writer; every output read by libhdf5 and by netCDF-C and compared with the program's content as reference model",
 "Holds for every program of the bounded family, as far as libhdf5 1.10 and netCDF-C judge."),
"C08":("exhaustive enumeration of variables (types, shapes, storage layouts) and of all their in-range slice bounds on the real reader, against the sub-array of the specified full value",
 "Holds for every file of the family and every slice within the stated bounds of it."),
"C09":("exhaustive enumeration of variables and of out-of-range and wrong-length slice bounds on the real reader",
 "Holds for every file of the family and every bad request of the stated set."),
"C06":("exhaustive enumeration of bounded storage layouts (shapes, chunk shapes, filters, written subsets) written by the reference library and read by the real reader; the logical array is the model",
 "Holds for every dataset of the bounded family; trusts libhdf5 to store what it is given."),
"C07":("exhaustive enumeration of a bounded grammar of datatypes, written by the reference library and read by the real reader; the written values are the model",
 "Holds for every type and shape of the bounded grammar; trusts libhdf5 to store what it is given."),
"C19":("exhaustive enumeration of unwritten parts: HDF5 datasets by type, layout and fill value, and every cut of CDF files, read by the real reader against the fill-value model",
 "Holds for every file and cut of the bounded family."),
"C14":("exhaustive enumeration of all sequences of writer calls (valid and invalid, both formats) up to a depth on the real writers, against a state model of which calls are accepted",
 "Holds for every call sequence over the stated alphabet up to the stated depth."),
"C20":("exhaustive enumeration of all operation sequences up to a depth on the real ordered map, against a reference map",
 "Holds for every operation sequence over the stated alphabet up to the stated depth."),
"C21":("exhaustive enumeration of strings over the alphabet of the name rules, each judged by the specification of names and tried on the real predicates, writers and readers of both formats",
 "Holds for every name over the stated alphabet up to the stated length, and every single code point of the stated ranges."),
"C11":("exhaustive enumeration of the deliveries of a data source: every single read of an open-and-read-everything run (thorough: every pair) cut short, and uniform short deliveries, on the real readers, against the run with full reads",
 "Holds for every file of the corpus and every delivery within the deviation bound."),
"C15":("exhaustive fault injection: the real writers on a file that stops accepting bytes at every position, and on paths that can't be created or written",
 "Holds for every cut point of the stated programs; faults are those a size limit, a full device and bad paths produce."),
"C16":("exhaustive enumeration of sequences of opening and closing handles up to a depth, and of a failing source at every step of opening, on the real library, counting the closes and descriptors of the underlying file",
 "Holds for every handle sequence up to the stated depth and every failure point."),
"C26":("exhaustive enumeration of contents both formats can hold, written through both real writers and read by both real readers, compared with each other and the content",
 "Holds for every content of the bounded family."),
"C27":("exhaustive enumeration of bounded files, each copied through the public API and read again, and written twice for identical bytes",
 "Holds for every file of the bounded family except the listed known findings."),
"C10":("exhaustive enumeration of sequences of read calls up to a depth on the real readers (one and two handles, results overwritten by the caller), every answer compared with the one on a file that was never read",
 "Holds for every file of the corpus and every sequence of the call alphabet up to the depth."),
"C12":("exhaustive fault injection: every operation of the byte source that opening a file or a read call makes fails in turn, in every kind (thorough: every pair of failures), on the real readers",
 "Holds for every file of the corpus, every failure point and every failure kind of the stated set."),
"C22":("exhaustive enumeration of bounded families of files of every origin (format model, writer programs, libhdf5, netCDF-C), with every call on every variable and attribute of the real readers, judged by their mutual consistency",
 "Holds for every file of the bounded families."),
"C23":("exhaustive enumeration of group trees and of all path lookups from all handles on the real readers, against path resolution in the tree as model; files from the library's own writer, libhdf5 and netCDF-C",
 "Holds for every tree and path within the bounds."),
"C25":("exhaustive enumeration of first bytes, prefixes, file objects' positions and unreadable sources on the real open calls, against the formats' signatures",
 "Holds for every source of the bounded family."),
"C28":("exhaustive enumeration of numbers, sizes and histories of links and attributes in every storage form, written by libhdf5 and read by the real reader, against the tree that was written as model",
 "Holds for every file of the bounded family."),
"C17":("exhaustive single-place damage of a corpus of files: every truncation, every byte x boundary values, every offset x boundary fields, with the covering checksum made right, each opened and read completely by the real readers in a worker process",
 "Holds for every file of the corpus and every damage of the stated set."),
"C18":("exhaustive damage of checksummed ranges: every byte of every structure with a checksum in a corpus of files made by libhdf5 and libnetcdf x replacement values, and short runs, with the checksum left alone; every answer of the real reader on the altered file compared with that on the intact file",
 "Holds for every file of the corpus and every alteration of the stated set; the ranges come from an independent implementation of the checksum and of the chunk index."),
"C13":("stateless model checking of the real code: the locks of the library are replaced by those of a controlled scheduler (build overlay), which also owns every operation on the file; all schedules of two or three goroutines up to a preemption bound, each under the race detector (which doesn't see the scheduler's handovers), answers compared with those of the calls made alone",
 "Holds for every schedule within the preemption bound, for the calls and files of the family."),
"C24":("exhaustive control of the orders in which maps are iterated: the real code is built with every range over a map (and maps.Keys, Values, All) under control, and all answers are compared over all orders of any one iteration (and, for single calls, any two); and enumeration of all creation orders of a few names in files that record them, against the order of creation",
 "Holds for every order within the bound, for the files of the family and the writer programs."),
}
NOT_APPLICABLE={}
