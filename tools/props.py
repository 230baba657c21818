"""Source of properties.jsonl: python3 tools/props.py > properties.jsonl"""
import json
P=[]
S="src/simplemseed/"
def p(id,title,stmt,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],mechanism=[dict(name=n,where=S+w) for n,w in mech])))

p("C01","miniSEED 3 fixed header is laid out as the format defines, both ways",
"Packing a miniSEED 3 fixed header always yields exactly 40 little-endian bytes with every field of the format at its published offset, width, signedness and kind, and parsing 40 or more bytes takes every field from that same place. Parsing refuses anything shorter than 40 bytes, not starting with 'MS', or whose format version is not 3.",
["inputs"],"every header value and every 40-byte prefix",
"The tests parse a few reference files whose fields are mostly small or zero; a swapped or narrowed field with equal sample values passes.",
["mseed3.py"],[("fixed header packer/parser","mseed3.py: MSeed3Header.pack, unpackMSeed3FixedHeader")])
p("C02","A packed miniSEED 3 record is self-consistent",
"A packed record is header, identifier, extra headers and payload, in that order with nothing between or after, and the three lengths in its header are the byte lengths (UTF-8) of those sections. The stored CRC is the CRC-32C of the whole record with the CRC field zero, the in-memory header agrees with the written one, and packing does not alter payload bytes given already encoded.",
["inputs"],"every identifier, extra-header value, payload type and encoding",
"Round-trip tests use ASCII identifiers and small dicts, and a reader sharing the same mistake hides it.",
["mseed3.py"],[("record packer","mseed3.py: MSeed3Record.pack")])
p("C03","A corrupted miniSEED 3 record is never returned while CRC checking is on",
"With CRC checking on, which is the default, no record is returned or yielded unless the CRC in its header equals the CRC-32C of all its bytes (header with CRC field zero, identifier, extra headers, payload); otherwise the documented miniSEED 3 error is raised. This holds for the single-record parser and the file reader, with or without merging, for every record that passes the identifier filter.",
["inputs","fault_sequences"],"every byte string and every corruption of one",
"A test flips a handful of bytes in one record; coverage of each section on each reader path needs every input.",
["mseed3.py"],[("CRC verification","mseed3.py: unpackMSeed3Record, readMSeed3Records")])
p("C04","Truncated input never becomes a record",
"If the input ends before the end of a record that would be returned, the miniSEED 2 and miniSEED 3 parsers and readers raise an error instead of returning a record with a short header, identifier, extra headers or payload, even with CRC checking off. Only input that ends exactly on a record boundary ends the iteration normally.",
["inputs","crash_points"],"every truncation point of every file",
"The tests read only whole files.",
["mseed3.py","miniseed.py"],[("section reads","mseed3.py: readMSeed3Records, unpackMSeed3Record; miniseed.py: readMiniseed2Records")])
p("C05","File readers stay on record boundaries, matched or skipped",
"After each record, whether returned or filtered out, the miniSEED 3 reader has advanced by exactly 40 plus the three section lengths in that record's header, and the miniSEED 2 reader by exactly the record's declared length. A record is yielded exactly when no pattern is given or the pattern is found in its identifier.",
["inputs","histories"],"every sequence of records and every pattern",
"The tests use homogeneous files; a skip wrong for one section only shows with non-empty extra headers and a filter, and so on.",
["mseed3.py","miniseed.py"],[("record framing","mseed3.py: readMSeed3Records; miniseed.py: readMiniseed2Records")])
p("C06","Uncompressed sample encoding and decoding agree with the format",
"For 16- and 32-bit integers and 32- and 64-bit floats, encoding produces exactly the samples in order, at the format's width and kind in the requested byte order, and decoding reads exactly the requested number of samples from the start with the same width, kind and byte order. The encoding code and sample count reported with encoded bytes describe those bytes.",
["inputs"],"every encoding, byte order and sample array",
"Tests round-trip through the library's own decoder on a few arrays, in which a consistent mistake cancels.",
["seedcodec.py"],[("primitive codec","seedcodec.py: encode, decompress, EncodedDataSegment.decode")])
p("C07","Payload byte order is chosen by the format, not by accident",
"miniSEED 3 payloads are written and read little-endian except Steim payloads, which are big-endian; miniSEED 2 payloads are written and read in the byte order the record declares, and the declared order in a packed record is the one its payload was written in. Re-reading what was packed therefore interprets every sample in the order it was written.",
["inputs","configurations"],"every encoding, declared byte order and sample container",
"Tests run on one little-endian host with mostly one container type per format.",
["mseed3.py","miniseed.py","seedcodec.py"],[("byte order selection","mseed3.py: MSeed3Record.decompress/encodedDataBytes/pack; miniseed.py: MiniseedRecord.decompress/packData")])
p("C08","Decoding gives exactly the requested sample count or a codec error",
"Decoding a payload returns exactly the number of samples asked for, or raises the codec error: too few bytes for an uncompressed encoding, Steim data that is not a whole number of 64-byte frames or holds fewer samples than asked, a Steim frame whose first nibble is not 00, or an unused Steim2 sub-code. Encodings it cannot decode raise the unsupported-compression error, and every encoding the library says it can decode it does.",
["inputs"],"every encoding code, payload and sample count",
"Tests decode well-formed data with the right count.",
["seedcodec.py","steim1.py","steim2.py"],[("decoder dispatch and guards","seedcodec.py: decompress, canDecompress; steim1.py: decodeSteim1; steim2.py: decodeSteim2")])
p("C09","Steim1 words hold the differences their nibble declares",
"Every Steim1 data word written carries consecutive sample differences, first in the most significant bits, as four 8-bit, two 16-bit or one 32-bit value under nibble 1, 2 or 3, and a difference is never stored in fewer bits than it needs. The decoder extracts the same fields, sign-extended, and rebuilds each sample as the previous sample plus the next difference starting from the first-sample constant, so that decoding what was encoded gives the samples back.",
["inputs"],"every sample sequence, at every difference magnitude boundary",
"Round trips over sampled arrays miss the width boundaries and mixed-width words.",
["steim1.py"],[("Steim1 word packing and extraction","steim1.py: encodeSteim1FrameBlock, extractSteim1Samples, decodeSteim1")])
p("C10","Steim2 words hold the differences their nibble and sub-code declare",
"Every Steim2 data word written carries consecutive sample differences, first in the most significant bits, in one of the seven packings of the format with the matching nibble and sub-code; a difference is never stored in fewer bits than it needs, and one beyond 30 bits raises the Steim error. The decoder extracts the same fields, sign-extended, for each nibble and sub-code and rebuilds each sample as the previous sample plus the next difference starting from the first-sample constant.",
["inputs"],"every sample sequence, at every difference magnitude boundary",
"Round trips over sampled arrays miss the width boundaries of the seven packings.",
["steim2.py"],[("Steim2 word packing and extraction","steim2.py: encodeSteim2FrameBlock, minBitsNeeded, bitsForPack, steimPackWord, extractSteim2Samples, decodeSteim2")])
p("C11","Steim frames are framed as the format requires",
"Each Steim frame is 64 big-endian bytes whose first word holds the 2-bit nibble of each of the 16 words in order, word 0 of every frame having nibble 00; the first frame carries the first and last encoded sample in words 1 and 2. With a frame limit the encoder never emits more frames than the limit, reports how many samples it actually stored, and the last-sample constant is the last sample stored.",
["inputs"],"every sample count and frame limit",
"Tests rarely fill a frame exactly or hit the frame limit.",
["steimframeblock.py","steim1.py","steim2.py"],[("frame block","steimframeblock.py: SteimFrameBlock.addEncodedWord, addEncodingNibble, setXsubN, pack")])
p("C12","Samples that cannot be represented are rejected, never silently altered",
"Encoding as Steim1 or Steim2, or building a record from an integer array, either represents every sample exactly or raises the library's error: values outside 32-bit range on either side, floating point samples (anywhere in a list), multi-dimensional arrays and empty inputs are refused. Narrow and unsigned integer arrays are widened before differences are taken, so no difference wraps.",
["inputs"],"every integer or float array type, list, and value",
"Tests pass 32-bit arrays and one or two rejection cases.",
["steim1.py","steim2.py","mseed3.py"],[("input validation","steim1.py: encodeSteim1FrameBlock; steim2.py: encodeSteim2FrameBlock; mseed3.py: MSeed3Record._internal_set_data")])
p("C13","A record's encoding and sample count always match its data",
"Building a miniSEED 2 or 3 record from data sets an unset encoding and sample count in the header from the data, and raises the format's error if the header already declares a different encoding or count, or if the data type is unsupported. Already encoded bytes keep the header's declared encoding and count.",
["inputs"],"every data container type and header state",
"Tests cover a few container and header combinations.",
["mseed3.py","miniseed.py"],[("data acceptance","mseed3.py: MSeed3Record._internal_set_data; miniseed.py: MiniseedRecord._internal_set_data")])
p("C14","Record times are the header's time fields, in UTC",
"The start time of a record is its year, day of year, hour, minute, second and fraction as a UTC instant, and setting a start time from a datetime or ISO string, whatever its time zone, stores the same instant in UTC fields. The end time is the start time plus the sample period times one less than the number of samples.",
["inputs"],"every time, time zone, rate and sample count",
"Tests use a handful of times, mostly in UTC.",
["mseed3.py","miniseed.py"],[("time fields","mseed3.py: MSeed3Header.starttime/endtime; miniseed.py: MiniseedHeader.setStartTime/packBTime, MiniseedRecord.endtime")])
p("C15","Rate-or-period convention is applied the same way everywhere",
"In miniSEED 3 a positive sample rate/period value is a rate in Hz and a negative one is a period in seconds; rate and period accessors return the corresponding positive value and are reciprocal of each other, and their setters store a value the accessors give back. In miniSEED 2, factor and multiplier combine by the format's four sign cases, and the sample period is the reciprocal of the rate.",
["inputs"],"every rate, period, factor and multiplier and every sign combination",
"Tests use a few positive rates.",
["mseed3.py","miniseed.py"],[("rate/period","mseed3.py: MSeed3Header.sampleRate/samplePeriod; miniseed.py: MiniseedHeader.__init__, setSampleRate")])
p("C16","Records merge only when contiguous and compatible",
"Two miniSEED 3 records are merged only if identifier, sample rate/period, encoding and publication version are equal and the second starts after the first ends, within half a sample period of the expected next sample time in either direction. A merged record has the first record's header with the sum of the sample counts and the first payload followed by the second; otherwise both originals come back in order and unchanged.",
["inputs"],"every pair of records",
"Tests merge two or three compatible records and one incompatible case.",
["mseed3.py"],[("merge","mseed3.py: areCompatible, mseed3merge")])
p("C17","Merged reading loses, duplicates and reorders nothing",
"When reading with merging on, every record read is either yielded, or merged with its neighbour into a record that is yielded, exactly once and in file order, and a pending merged record is yielded before any later record and at end of file. Only neighbouring records are ever merged.",
["histories","inputs"],"every sequence of mergeable, unmergeable and undecodable records",
"Tests merge one homogeneous file.",
["mseed3.py"],[("merging reader","mseed3.py: readMSeed3Records")])
p("C18","Converting miniSEED 2 to 3 preserves metadata and samples",
"Conversion carries start time (including the extra microseconds), sample rate or period, sample count, encoding, identifier and non-default data quality to the miniSEED 3 record, maps the three flag bits to the miniSEED 3 flags defined for them, and records timing quality and leap second in the extra headers. Steim payloads are carried over unchanged, and uncompressed payloads keep their sample values while becoming little-endian.",
["inputs","configurations"],"every miniSEED 2 header, blockette combination and byte order",
"Tests convert one or two files with default flags and one byte order.",
["mseed2to3.py"],[("2 to 3 conversion","mseed2to3.py: mseed2to3")])
p("C19","miniSEED 2 fixed header is laid out as SEED defines, both ways",
"Packing and parsing a miniSEED 2 record place and find every fixed header field at its SEED 2.4 offset, width, signedness and kind in the record's byte order: sequence number, quality, codes, start time, sample count, signed rate factor and multiplier, flags, blockette count, time correction, data offset and first blockette offset. Every header value read from a record is written back when it is packed again.",
["inputs","configurations"],"every header value and both byte orders",
"Tests use default flags and quality and big-endian headers.",
["miniseed.py"],[("fixed header","miniseed.py: MiniseedHeader.pack, unpackMiniseedHeader")])
p("C20","miniSEED 2 blockettes are laid out and chained as SEED defines",
"Blockettes 100, 1000 and 1001 are written and parsed with SEED's field offsets, widths and kinds, unknown blockettes are written back byte for byte, and each blockette occupies exactly its own length. In a packed record the first-blockette offset, blockette count and next-blockette offsets form a chain that reaches every blockette exactly once and ends with zero, a blockette 1000 is always present, and the data offset lies at or after the end of the last blockette.",
["inputs","histories"],"every list of blockettes, both byte orders",
"Tests pack records that have only one blockette.",
["miniseed.py"],[("blockettes","miniseed.py: MiniseedRecord.pack, packBlockette, unpackBlockette")])
p("C21","A packed miniSEED 2 record has exactly its declared length",
"Packing returns exactly the number of bytes given by the record length, which is two to the exponent declared in its blockette 1000. If blockettes and payload do not fit, packing raises the miniSEED 2 error instead of growing the record or dropping data.",
["inputs"],"every payload size, blockette list and record length",
"Tests pack small payloads.",
["miniseed.py"],[("record length","miniseed.py: MiniseedRecord.pack, packData")])
p("C22","Reading miniSEED 2 applies byte order and blockettes consistently",
"The byte order of a miniSEED 2 header is detected from the year field, the same order is used for all its blockettes, and when neither order is plausible the miniSEED 2 error is raised. Blockette 1000 sets the record's encoding, data byte order and length, blockette 100 replaces the sample rate, and blockette 1001 adds its microseconds to the start time.",
["inputs","configurations"],"every header, byte order and blockette combination",
"Tests read a few files, almost all big-endian.",
["miniseed.py"],[("reader","miniseed.py: unpackFixedHeaderGuessByteOrder, readMiniseed2Records")])
p("C23","Source ids parse and print as inverses",
"Parsing the printed form of a network, station, location or channel source id gives an equal id of the same kind, parsing text and printing it gives the same text, and anything without the prefix or with a number of parts other than 1, 2, 3 or 6 is refused. The enclosing network, station and location ids carry the same codes, and ids are equal exactly when they are of the same kind and print the same.",
["inputs"],"every code string",
"Tests list example ids.",
["fdsnsourceid.py"],[("source ids","fdsnsourceid.py: FDSNSourceId, NetworkSourceId, StationSourceId, LocationSourceId")])
p("C24","Validation accepts exactly the source ids the specification allows",
"Validation accepts a network of 1-8 characters A-Z 0-9, a station of 1-8 characters A-Z 0-9 dash, a location of 0-8 characters A-Z 0-9 dash other than '--', a non-empty source and possibly empty subsource of A-Z 0-9, and rejects everything else, including non-ASCII digits. Validating an id includes validating every enclosing id.",
["inputs"],"every string in every position",
"Tests try a few valid and invalid codes.",
["fdsnsourceid.py"],[("validation","fdsnsourceid.py: validate methods and their regular expressions")])
p("C25","NSLC conversion keeps the codes",
"Converting network, station, location, channel codes to a source id splits a three-character channel into band, source and subsource, or a separated one at its separators, and keeps the other codes; converting back gives the original codes. The start year is appended only to two-character temporary network codes other than XX, and malformed channels or ids with fewer than four parts are refused.",
["inputs"],"every code string and start year",
"Tests list examples.",
["fdsnsourceid.py"],[("NSLC conversion","fdsnsourceid.py: fromNslc, parseNslc, asNslc, shortChannelCode, NetworkSourceId.__init__")])
p("C26","Band code lookup is total and agrees with the published table",
"For every sample rate or period and every response bound the band code is the one whose published range contains the rate (and response period, where the table distinguishes), periods and rates being treated alike; missing or zero rate gives the irregular code. Every band code returned has an entry in the band code table.",
["inputs"],"every real rate, period and response bound",
"Tests check sample rates inside ranges, not every boundary.",
["fdsnsourceid.py","bandcode.json"],[("band codes","fdsnsourceid.py: bandCodeForRate")])
p("C27","Editing extra headers in a file loses no record",
"Setting extra headers from the command line rewrites the file with every record, in order, changed only in the extra headers of the targeted record(s): those matching the pattern, the first only unless all are asked for. The original is replaced only after the complete new content is written and closed, and an error while reading leaves the original untouched.",
["inputs","crash_points"],"every file, pattern, pointer and failure point",
"No test runs the command on a file with a pattern.",
["mseed3details.py"],[("extra header editing","mseed3details.py: do_set_eh")])
p("C28","Command line tools pass their options through",
"Every option value a command line tool reads is one it declares, and no tool fails on the absence of an optional one. The pattern, verbosity, input and output options reach the function that implements them, get/set options act on the first matching record and getall/setall on all matching ones, and the converter and merger write every record they read.",
["inputs","configurations"],"every command line",
"The tests never run the command line entry points.",
["mseed2to3.py","mseed3details.py","mseed3merge.py","mseed2details.py","fdsnsourceid.py"],[("entry points","mseed2to3.py: main; mseed3details.py: do_details; mseed3merge.py: main; mseed2details.py: do_details; fdsnsourceid.py: main")])
p("C29","Errors are reported with the library's exceptions and built without failing",
"Whenever the library detects invalid input it raises one of its own documented exception types with a message, and building that message never itself fails with an unrelated error such as joining text and numbers. Codec errors are all catchable as the codec exception.",
["inputs"],"every error path",
"Most error paths are never taken in tests.",
["seedcodec.py","steim1.py","steim2.py","mseed3.py","miniseed.py","fdsnsourceid.py","exceptions.py"],[("raise sites","all modules: raise statements; exceptions.py: class hierarchy")])
p("C30","Derived records are independent copies",
"Decompressing, cloning or merging a miniSEED 3 record never changes the source record's header, data or extra headers, and changing the header or extra headers of the derived record afterwards does not change the source. Every header field a copy should share with its source has the source's value.",
["inputs","histories"],"every record and sequence of operations on record and copy",
"Tests do not mutate copies.",
["mseed3.py"],[("copies","mseed3.py: MSeed3Header.clone, MSeed3Record.clone, decompressedRecord, mseed3merge")])
p("C31","Encoding type tables agree with each other",
"The mappings between encoding codes, numpy types and array type codes are mutually consistent: mapping an encoding to a type and back gives the encoding, sizes match the format's widths, and types or encodings with no counterpart raise the unsupported-compression error. The primitive and floating point classifications contain exactly the encodings of those kinds.",
["inputs"],"every encoding code, numpy type and type code/size",
"Tests cover a few entries.",
["seedcodec.py"],[("type tables","seedcodec.py: mseed3EncodingFromNumpyDT, numpyDTFromMseed3Encoding, mseed3EncodingFromArrayTypecode, arrayTypecodeFromMSeed")])
p("C32","Extra headers read, set and delete consistently",
"Extra headers given as a string, dict or nothing read back as the parsed JSON, an empty object for the empty string, or nothing; after setting they read back as set, and after deleting the record has none and can still be read and packed. Every JSON value set is written when the record is packed, and the test for having extra headers agrees with what is read.",
["inputs","histories"],"every extra header value and sequence of get, set, delete and pack",
"Tests set dicts only.",
["mseed3.py"],[("extra header accessors","mseed3.py: MSeed3Record.eh, hasExtraHeaders, pack")])
p("C33","Reading samples does not change what a record packs to",
"Decompressing a record that was read or created does not change the bytes it packs to: an encoded payload is written back unchanged, and packing twice gives the same bytes. Decompressing twice gives the same samples.",
["inputs","histories"],"every record and order of decompress and pack",
"Tests either decompress or pack a record, seldom both, and not for compressed miniSEED 2 records.",
["mseed3.py","miniseed.py"],[("payload retention","mseed3.py: MSeed3Record.decompress/pack; miniseed.py: MiniseedRecord.decompress/pack")])
if __name__=="__main__":
    for r in P:
        assert len(r["title"])<=80,r["id"]
        print(json.dumps(r))
