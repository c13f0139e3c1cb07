"""Source of properties.jsonl and of the checks of MANIFEST.json (python3 tools/gen.py)."""
O = "packages/optivorbis/src/"
RMX = O + "remuxer/ogg_to_ogg/mod.rs"
GRN = O + "remuxer/ogg_to_ogg/granulator.rs"
MNG = O + "remuxer/ogg_to_ogg/ogg_vorbis_stream_mangler.rs"
OPT = O + "vorbis/optimizer.rs"
PRODUCT = ("abstract interpretation of MIR: path-sensitive interprocedural dataflow with a value-provenance domain, "
           "product with a reference transition system closed under simulation")
NOTE = ("Sound over all inputs, relative to the abstract interpreter in sa/, its summaries of library functions and "
        "release-build arithmetic; undecided conditions are explored on both sides, anything not interpretable fails the check. ")
SETUPTECH = ("abstract interpretation of MIR: event-trace dataflow with loop induction, compared field by field with a reference grammar of the format")
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique=PRODUCT, level="proof", note="", observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    PROPS.append((d, dict(property=id, technique=technique, level=level, level_note=NOTE + note)))


prop("C10", "Every kept packet is written once, in order, and the last one ends the stream",
     "Every packet of a tracked Vorbis stream is handed to the optimiser exactly once, with exactly the data read, and "
     "in input order; if the optimiser keeps it, the optimised data is written exactly once, otherwise nothing is written "
     "for it. The packet written with the end-of-stream flag is the last packet of its stream that is kept, also when "
     "trailing packets are discarded, and no other packet carries that flag.",
     ["inputs", "histories", "configurations"], "all sequences of packets of any number of streams, any settings, any outcome of packet optimisation",
     "The tests remux a few well-formed files; which packets are dropped and where the stream ends depends on the whole packet history.",
     [RMX], [("two-pass remuxing", RMX), ("packet accounting of a stream", RMX)])
prop("C11", "Written pages end only where the Ogg Vorbis mapping requires it",
     "The written identification header and the written setup header each end their Ogg page, and the last written packet of a stream ends the "
     "stream. Every other written packet is left to the Ogg writer to pack with its neighbours, however the pages of the input were laid out.",
     ["inputs", "histories"], "all packets, all positions in the stream and in the input's pages",
     "Tests remux whole files whose pages are laid out conventionally and do not look at pages.", [RMX], [("page end information of written packets", RMX)])
prop("C12", "Granule positions are recomputed and keep the original start and end",
     "Header packets get granule position zero, the first audio packet starts at zero, and each next one adds a quarter of the sum of "
     "its block size and that of the previous one. At the first kept audio packet that ended its page in the input, the difference between that page's granule position and the "
     "computed one is added, and so to the packets after it, unless the settings ask to ignore the start offset. The last packet keeps its original position "
     "(less the offset, if it is ignored) when that lies after the previous packet's and not beyond the computed one.",
     ["inputs", "histories", "configurations"], "all sequences of block sizes and original granule positions, both settings of the start sample offset",
     "Granule positions depend on the history of block sizes and on where pages end; tests sample a handful of files.",
     [RMX, GRN], [("granule position computation", GRN), ("first and last page sample counts", RMX)])
prop("C13", "Output stream serials are unique per stream and follow the settings",
     "All packets of one input stream get one serial that does not depend on the input serial; serials of different streams differ. "
     "Without randomisation they are the configured offset plus the stream's index, with it they start at the offset plus a random "
     "number and advance by a random odd increment, so they cannot repeat.",
     ["inputs", "histories", "configurations"], "all numbers and interleavings of streams, all offsets, all random numbers",
     "Randomised serials cannot be sampled to show that none ever repeats.", [RMX], [("serial generation", RMX)])
prop("C15", "The second pass rereads exactly what the first pass analysed",
     "Remuxing remembers where the input was before reading anything, analyses it, returns to that very position and reads the same "
     "input with the same Ogg parsing options again. No output is written before the analysis has ended successfully.",
     ["inputs", "histories"], "all inputs whose position at the call may be anything, all outcomes of seeking and reading",
     "Tests pass inputs positioned at zero.", [RMX], [("rewind between the passes", RMX)])
prop("C16", "No failure of reading, seeking, analysing, optimising or writing is swallowed",
     "If seeking, reading a packet, analysing or optimising it, or writing one fails, remuxing stops without writing "
     "further packets and returns that failure as its cause. If nothing fails it returns the output it was given.",
     ["fault_sequences", "inputs"], "every fallible operation on every path of both passes, each failing at any iteration",
     "The tests never make an operation fail.", [RMX], [("error propagation", RMX)])
prop("C19", "Non-Vorbis streams are ignored, broken ones rejected, concurrent ones refused",
     "A stream whose first packet does not start with the type and signature of a Vorbis identification header is ignored altogether, one that does but is cut short "
     "or holds an invalid field is an error. A Vorbis stream that begins while another one has not ended is "
     "refused, and an input with no Vorbis stream is an error exactly when the settings say so.",
     ["inputs", "histories", "configurations"], "all packet sequences, all byte contents of first packets, both settings",
     "Tests have a few hand-made examples of each class; the class boundary is over all byte contents and interleavings.",
     [RMX, OPT], [("stream start classification", RMX), ("identification header validation", OPT)])
prop("C27", "Mangler hooks get the computed values and what they return is written",
     "Each hook gets the values computed for the stream or packet and their place in it, and what it returns is written instead of them. "
     "Sampling frequency and bitrate hooks are called once per stream, the packet hooks once per written packet.",
     ["inputs", "histories", "programs"], "all mangler implementations, all streams and packets",
     "A mangler is arbitrary user code; no test uses one.", [RMX, MNG], [("hook calls", RMX)])

BPK = "packages/vorbis_bitpack/src/lib.rs"
BITTECH = "abstract interpretation of MIR: bit-level provenance domain, closure of all packer states under all operations and widths"
prop("C20", "The bit packer writes exactly the requested bits, least significant first",
     "After any sequence of writes of integers and flags of any widths from 0 to 32, the bytes sent to the sink hold exactly the "
     "requested low bits of each value in order, least significant first, and nothing else; complete bytes are sent at once. Finalising or "
     "dropping the packer pads the last byte with zeros, after which nothing is pending. A failure of the sink is returned at once.",
     ["inputs", "histories", "fault_sequences"], "all values, all widths, all histories of writes, each transfer failing or not",
     "The combination of pending bits, widths, stray high bits of values and failing sinks is too large for examples.",
     [BPK], [("bitpacked writing", BPK)], BITTECH)
prop("C21", "The bit packer reads back exactly the bits of the source",
     "After any sequence of reads of any widths from 0 to 32, each read yields exactly the next bits of the source, least significant first: "
     "zero extended for unsigned integers, sign extended for signed ones, and the bit itself for flags. No more bytes are taken from the source than the bits read so far "
     "need, and a failure of the source is returned.",
     ["inputs", "histories", "fault_sequences"], "all source bytes, all widths, all histories of reads, each transfer failing or not",
     "The combination of left-over bits and widths is too large for examples.",
     [BPK], [("bitpacked reading", BPK)], BITTECH)

HDR = O + "vorbis/optimizer/"
prop("C07", "User comments and the vendor string survive exactly as the settings ask",
     "The written comment header holds the vendor string of the input (copied, replaced, emptied or with a version tag appended once, as configured) "
     "and, unless they are to be deleted, every user comment in its order, each with its exact bytes. A comment header cut short in the "
     "input keeps its complete comments, and the written one is always complete and well-formed.",
     ["inputs", "configurations"], "all comment header packets, all vendor string and comment actions",
     "The header is arbitrary data with nested lengths; tests have a few well-formed ones.",
     [HDR + "comment_header_parse.rs", HDR + "comment_header_copy.rs"],
     [("comment header analysis", HDR + "comment_header_parse.rs"), ("comment header writing", HDR + "comment_header_copy.rs")],
     "abstract interpretation of MIR: value-provenance dataflow, loop induction, comparison with a byte-level reference grammar",
     note="The position computations of the reading loop are proved by induction on its abstract summary.")
prop("C08", "The written identification header equals the input's, repaired",
     "The optimised identification header has the 30 bytes of the input's, except that the framing bit byte is exactly one and the sampling "
     "frequency and bitrates are the ones set by a mangler, if it changed them.",
     ["inputs", "programs"], "all accepted identification headers, all values a mangler may set",
     "Tests compare a few headers of well-formed files.", [HDR + "identification_header_copy.rs", OPT],
     [("identification header copy", HDR + "identification_header_copy.rs")],
     "abstract interpretation of MIR: byte-level value provenance compared with the header layout")

prop("C01", "The written setup header declares the same codec configuration as the input",
     "The optimised setup header of every accepted one holds the same codebooks (dimensions, entries, value tables), floors, residues, mappings and modes "
     "in the same order, laid out as the format demands. Only fields no decoder uses are replaced, by their neutral values.",
     ["inputs"], "all accepted setup headers, for any number of channels",
     "A setup header is a deeply nested bit format whose optional parts real encoders never use; tests have a few of libvorbis.",
     [HDR + "setup_header_parse.rs", HDR + "setup_header_rewrite.rs"],
     [("setup header analysis", HDR + "setup_header_parse.rs"), ("setup header writing", HDR + "setup_header_rewrite.rs")],
     SETUPTECH, note="Relies on the contracts of the bit packer (C20, C21) and of the codebooks.")
prop("C06", "Codeword lengths are read and declared exactly, in every format",
     "A codebook's decoder works with exactly the codeword lengths its declaration gives, whether dense, sparse or in runs, under the codebook's own number. The written "
     "declaration gives back exactly the new codeword lengths of that codebook, marks exactly the entries without codeword as unused, and uses the format with runs only where it can express the lengths.",
     ["inputs"], "all codebook declarations, all possible codeword lengths of the result",
     "Runs, unused entries and single-entry codebooks are absent from most files.",
     [HDR + "setup_header_parse.rs", HDR + "setup_header_rewrite.rs"],
     [("codebook parsing", HDR + "setup_header_parse.rs"), ("codebook writing", HDR + "setup_header_rewrite.rs")],
     SETUPTECH, note="That optimal lengths form a complete code (so never strictly decrease) is an assumption here.")
prop("C17", "A setup header is accepted if and only if it is complete and valid",
     "A setup header that ends early, uses an unsupported or undefined feature, or refers to a codebook, floor, residue, mapping, submap or channel that does not "
     "exist is rejected with an error, whatever else it holds. Every other one is accepted; placeholder, reserved and framing fields do not matter.",
     ["inputs"], "all byte sequences given as a setup header",
     "Each check guards later indexing and every field is a separate way to be wrong; tests try none or a few of them.",
     [HDR + "setup_header_parse.rs"], [("setup header analysis", HDR + "setup_header_parse.rs")],
     SETUPTECH, note="Whether a set of codeword lengths is a valid prefix code is left to the codebook (not part of this check).")

prop("C22", "Integer widths are always between 0 and 32 bits",
     "A bitpacked integer width is between 0 and 32 bits however it was made, and it says the number of bits it was made with. Making one at run time from any other number fails, "
     "and a program that asks the macro for any other number at build time does not build; those that ask for 0 to 32 do.",
     ["inputs", "programs"], "all numbers given as a width at run time, all programs outside of the crate that make one from a constant",
     "Programs that must not build cannot be part of a test suite that builds, and each use of the unchecked constructor relies on a bound from elsewhere.",
     [BPK], [("integer widths", BPK)],
     "type-level compile-fail and compile-pass witnesses for every width, whole-program enumeration of construction sites in MIR, interval analysis of their arguments")
prop("C26", "Settings have their documented defaults and reach what they control",
     "A remuxer made with defaults randomises serials, offsets them by zero, honours the start sample offset, fails without Vorbis streams, verifies page checksums, appends the version tag to "
     "the vendor string, keeps the comments and mangles nothing. A remuxer keeps the settings it is given, reads with checksum verification exactly if they ask for it, "
     "in both passes, and optimises each stream with the given optimiser settings.",
     ["configurations", "inputs"], "all settings, all inputs, both passes",
     "No test looks at defaults, and files with broken checksums or several streams are needed to see where settings go.",
     [RMX, O + "remuxer.rs", OPT, MNG], [("remuxer settings", RMX), ("optimiser settings", OPT), ("default mangler", MNG)],
     "abstract interpretation of MIR: provenance of settings from the constructors to each place that uses them")

AUDIOTECH = "abstract interpretation of MIR over reader, writer and codebook contracts: typestate of reads and writes on every path of every loop summary"
APK = [HDR + "audio_packet_common.rs", HDR + "audio_packet_analyze.rs", HDR + "audio_packet_rewrite.rs"]
prop("C02", "Audio packets that end early are kept unless their window flags are missing",
     "An audio packet that ends before its packet type, mode number and window flags are complete is dropped; one that ends anywhere later, in the middle of a number or a codeword too, is kept "
     "with what it holds up to there. Any other failure of its source is an error, and both passes decide alike.",
     ["inputs", "fault_sequences", "configurations"], "all audio packets cut at any bit, all setup headers, each read failing or not",
     "A packet can end inside any field of a grammar that its setup header defines; tests have packets of one encoder, hardly any of them cut.",
     APK, [("packet analysis", APK[1]), ("packet rewriting", APK[2]), ("shared decoding steps", APK[0])], AUDIOTECH)
prop("C03", "Rewritten audio packets hold the same fields, each codeword recoded",
     "The rewritten packet holds every field of the original in its order, with its width and value, and in the place of each codeword the one that the new code of the same codebook gives to the same entry. "
     "Nothing is left out, repeated or added up to where the original ends, and the result is exactly the bits written.",
     ["inputs", "configurations"], "all audio packets, all setup headers, whether packets end early or not",
     "The fields depend on the setup header and on each other; tests have files of one encoder, which uses a fraction of the format.",
     APK, [("packet rewriting", APK[2]), ("shared decoding steps", APK[0])], AUDIOTECH,
     note="What codewords mean in a codebook is its own property; that both passes keep the same packets is C02's and C10's.")

NA_PROPS = []


def na(id, title, statement, over, text, why, files, mech, reason):
    NA_PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                          anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), reason))


na("N01", "Decoded audio is bit-for-bit the same before and after optimisation",
   "Any conforming decoder produces identical samples from the input and the output stream.",
   ["inputs"], "all valid Vorbis streams", "Tests compare a few files.", [OPT], [("whole optimiser", OPT)],
   "Needs the semantics of a Vorbis decoder over unbounded runtime data; its structural parts (packet re-encoding, setup "
   "header re-emission, granule positions) are claimed separately.")
na("N02", "Optimised streams are never bigger than the original",
   "The output of optimising a valid stream has at most as many bytes as the input.",
   ["inputs"], "all valid Vorbis streams", "Tests compare a few files.", [OPT, O + "vorbis/codebook/huffman_codeword_lengths.rs"],
   [("optimal codeword lengths", O + "vorbis/codebook/huffman_codeword_lengths.rs")],
   "Optimality of a Huffman code over runtime symbol frequencies is a numerical minimisation result; no sound static argument in reach bounds it.")
na("N03", "Optimisation terminates in time and memory proportional to the input",
   "No input makes optimisation loop forever or use memory out of proportion to its size.",
   ["inputs"], "all byte sequences", "Tests use well-formed files.", [OPT, O + "vorbis/optimizer/setup_header_parse.rs"],
   [("setup header parsing", O + "vorbis/optimizer/setup_header_parse.rs")],
   "Quantifies over loop counts that come from the data, which the shape of the code does not bound.")

# extra text for DESIGN.md
DESIGN = {}
CAUGHT = {}
FALSE_ALARMS = """* The first version of the C12 reference demanded that the last packet's granule position never exceed the
  computed one even with an ignored offset; the documentation asks for the original position less the offset. Reference corrected.
* C16 demanded that the output be untouched after an analysis failure; only "no further packets" is promised. Property corrected."""
LIMITS = """* Loops whose bodies the summary cannot express (no induction found) make a check fail rather than pass.
* The `ogg` crate's own behaviour (page assembly, checksums) is taken as documented: it is a dependency, not part of the repository.
* Feature combinations: the library is analysed with the features its default build enables (`source-date-epoch` included), for a 64-bit target."""
