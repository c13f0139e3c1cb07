"""Which analysis decides which property."""
import facts
from refcmp import Report

TRUSTED = [
    "rustc's type checker, monomorphisation and MIR construction (nightly in the sandbox)",
    "sa/engine.py: abstract interpretation of MIR (trace partitioning, loop summaries)",
    "sa/models.py: summaries of the standard library functions the code calls",
    "sa/terms.py: normal forms and interval facts",
]
ASSUME = [
    "arithmetic is that of a release build (wrapping), panics end a path",
    "library functions behave as documented (standard library, ogg, indexmap, byteorder)",
]
PROPS = {}
GROUPS = {}


def group(name):
    def d(fn):
        GROUPS[name] = fn
        return fn
    return d


def prop(pid, groups, explain, floors=None, level="proof", assume=()):
    PROPS[pid] = dict(groups=groups, explain=explain, floors=floors or {}, level=level, assume=list(assume))


def run(pid, tier):
    rep = Report()
    fns = set()
    for g in PROPS[pid]["groups"]:
        fns |= GROUPS[g](rep, tier) or set()
    return rep, fns


_F = {}


def F(which="lib"):
    if which not in _F:
        _F[which] = facts.load(which)
    return _F[which]


@group("remux")
def _remux(rep, tier):
    import remux
    H, reach = remux.first_pass(F(), rep)
    remux.second_pass(F(), rep, reach)
    remux.check_rewind(H, rep)
    return {("lib", i) for i in H.functions}


REMUX = ("Both passes of the Ogg remuxer are interpreted abstractly over every path of one loop iteration; the stream "
         "state is closed under all packets by a simulation with a reference written from the documentation, whose "
         "decisions are replayed on every side of every undecided condition. ")
prop("C10", ["remux"], REMUX + "Compared: which packets are handed to the optimiser, kept, discarded and written, with "
     "which data, and which one is announced and flagged as the last of its stream.", dict(second_pass_paths=100, stream_states=5))
prop("C11", ["remux"], REMUX + "Compared: the page boundary flag written after each kept packet.", dict(stream_states=5))
prop("C12", ["remux"], REMUX + "Compared: the granule position written with each kept packet, as a term over the block "
     "sizes, the original granule positions and the settings.", dict(granule_comparisons=60, first_pass_transitions=4, stream_states=5))
prop("C13", ["remux"], REMUX + "Compared: the serial of each written packet as an affine term of the stream's index.", dict(serial_cases=10))
prop("C15", ["remux"], REMUX + "Compared: position, source and options of the second reader with the first.", dict(second_pass_entries=1))
prop("C16", ["remux"], REMUX + "Compared: the outcome of every fallible operation on a path with the outcome of remuxing.", dict(remux_outcomes=8))
prop("C19", ["remux"], REMUX + "Compared: the classification of a packet of an unknown stream (byte-level reference of an "
     "identification header) and the reaction to each class.", dict(first_pass_paths=8, pass_ends=2))
prop("C27", ["remux"], REMUX + "Compared: calls, arguments and uses of results of the stream mangler hooks.", dict(stream_starts=1))


@group("bitw")
def _bitw(rep, tier):
    import bitpack
    return {("lib", i) for i in bitpack.check_writer(F(), rep)}


@group("bitr")
def _bitr(rep, tier):
    import bitpack
    return {("lib", i) for i in bitpack.check_reader(F(), rep)}


BITS = ("Every operation of the bit packer is interpreted for every number of pending bits and every width from 0 to 32, with each bit of the "
        "state, of the operand and of the transferred bytes tracked by where it comes from, and both outcomes of every transfer; the states "
        "reachable by any history of operations are closed under all operations. ")
prop("C20", ["bitw"], BITS + "Compared: the bits sent to the sink with a bit queue, least significant bits first, and the reaction to failures.",
     dict(states=8, write_paths=800, bits_compared=4000))
prop("C21", ["bitr"], BITS + "Compared: the bytes taken from the source and the value read with a bit queue, least significant bits first.",
     dict(states=8, read_paths=2000, bits_compared=8000))


@group("comments")
def _comments(rep, tier):
    import optim
    return {("lib", i) for i in optim.check_c07(F(), rep)}


@group("ident")
def _ident(rep, tier):
    import optim
    return {("lib", i) for i in optim.check_c08(F(), rep)}


prop("C07", ["comments"], "Reading a comment header and writing it are interpreted over every path, with the bytes of the packet kept symbolic; "
     "the written packet, a concatenation of slices and computed bytes, is compared with the one the reference derives from the input packet "
     "and the settings. The reading loop is checked by induction on its summary.",
     dict(analysis_paths=100, written=300, outputs_compared=200, comment_bodies=100, read_loops=100))
prop("C08", ["ident"], "Every accepted identification header, with its fields replaced by arbitrary mangled values, is taken through its optimisation; "
     "each byte of the written packet is compared with its origin.", dict(fields=4, paths=10, bytes=500))


@group("setup")
def _setup(rep, tier):
    import setup, header
    R = setup.Chain(F())
    P, good, pk = header.check_parse(R, rep)
    header.check_write(R, rep, P, good, pk)
    return {("lib", i) for i in R.eng.analysed}


@group("setup_all")
def _setup_all(rep, tier):
    import setup, header
    R = setup.Chain(F(), read_errors=True)
    header.check_parse(R, rep)
    return {("lib", i) for i in R.eng.analysed}


@group("lookup1")
def _lookup1(rep, tier):
    import header
    return {("lib", i) for i in header.check_lookup1(F(), rep)}


SETUP = ("The analysis of a setup header is interpreted over every path with its bit reader, bit writer and codebooks replaced by their contracts; "
         "loops become summaries whose iterations are compared one by one with a reference grammar of the setup header that follows the Vorbis I specification. ")
prop("C01", ["setup", "lookup1"], SETUP + "Every field that the optimised setup header is written with is then compared, width and value, with the field of the "
     "parsed header it has to carry; lists by induction over their members.", dict(fields=700, outcomes=1, lookup1_outcomes=3))
prop("C06", ["setup"], SETUP + "Compared: the codeword lengths given to a codebook's decoder with the ones the header declares, and the declared lengths of the written "
     "codebook with its optimal ones; the choice of format by an inductive proof over the loop that made it.",
     dict(codebooks=500, lengths=1000, formats=50, proofs=20))
prop("C17", ["setup_all", "lookup1"], SETUP + "Each read may also find the packet's end. Every accepted path is compared with all the conditions a valid header meets, every rejected one "
     "has to violate one of them.", dict(paths=200, fields=100000, conditions=20000, lookup1_outcomes=3))


@group("widths")
def _widths(rep, tier):
    import widths
    return {("lib", i) for i in widths.check(F(), rep)}


@group("defaults")
def _defaults(rep, tier):
    import defaults
    return {("lib", i) for i in defaults.check(F(), rep)}


prop("C22", ["widths"], "The run time constructor is interpreted for an arbitrary number. Every place in the program that makes a value of the type is found in the "
     "compiler's representation; those that do not check are followed to their callers, whose arguments are constants or bounded by the interpretation of the bit "
     "packer in every reachable state. Programs that ask for each width from 0 to 255 at build time are type-checked: they have to build or to fail to.",
     dict(constructor_paths=2, construction_sites=1, programs=200))
prop("C26", ["defaults"], "The constructors are interpreted; the value of each documented default is compared with its documentation, each method of the default mangler with the identity. "
     "A remuxer made with arbitrary settings is then taken through both passes: the options each reader is created with and the settings of each optimiser are compared with the given ones.",
     dict(defaults=7, mangler_methods=5, settings_kept=2, readers=4, optimisers=4))


@group("audio_copy")
def _audio_copy(rep, tier):
    import audio
    return {("lib", i) for i in audio.check(F(), rep, ["C03"], second=True)}


@group("audio_end")
def _audio_end(rep, tier):
    import audio
    return {("lib", i) for i in audio.check(F(), rep, ["C02"])}


AUDIO = ("For every setup header that analysis accepts, with one mode and with several, each pass over an audio packet is interpreted over every path with its bit reader, "
         "bit writer and codebooks replaced by their contracts, and any read or decode possibly failing with any error. ")
prop("C03", ["audio_copy"], AUDIO + "Every read has to be followed, before the next one, by a write of the same width and value, every codeword by the codeword that the new code of the "
     "same codebook gives to the same entry, on every path through every loop; after the first failure nothing may be written, and the written bits are what is returned.",
     dict(outcomes=30, fields=8000, loops=12000))
prop("C02", ["audio_end"], AUDIO + "Each path is classified by the first failure on it: its kind, and the part of the packet it is in; the outcome is compared with the one due.",
     dict(outcomes=60, ends=3000))
