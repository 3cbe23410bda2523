"""Level, technique and note of each claimed property; reasons for those not claimed."""
BOUNDED = ("c02_lengths",)


def kani_kind(h):
    return "bounded" if h in BOUNDED else "complete over the full input domain (loops bounded by the operand width, unwinding assertions on)"


KANI = "contract harnesses on the real functions, every obligation discharged by Kani/CBMC over the full input domain"
VERUS = "contracts (pre/postconditions, loop invariants, lemmas) on the functions of /repo, extracted on every run, every obligation discharged by Verus/Z3 without bounds"
REPLAY = "; failed obligations are replayed on the real crate by a seeded search for a failing input"
TECH = {i: "contract-based deductive verification: " + t + REPLAY for i, t in {
    "C01": KANI, "C02": KANI, "C03": KANI + "; read/write of bit fields also under Verus contracts",
    "C04": VERUS, "C05": VERUS, "C06": VERUS,
    "C07": VERUS + "; variable-length integer decoders by Kani over the full input domain",
    "C08": VERUS, "C09": VERUS, "C10": VERUS + "; writer alignment also by Kani", "C11": VERUS,
    "C12": VERUS + "; and by Kani on the real crate for every integer type", "C13": VERUS, "C14": VERUS}.items()}
LEVEL = {i: "proof" for i in TECH}
GEN = "the same contracts executed on the code the generator of /repo emits on every run for the whole corpus (bounded: seeded search over objects and inputs)"
GENV = "contracts written from the schemas on the generated functions (%s) of %s corpus packages, extracted on every run from what the generator of /repo emits, every obligation discharged by Verus/Z3 for all values, lengths and positions; "
FOUR = "zv.consts, zv.scalars, zv.enums and zv.proved"
for i, f in {"C20": "zserio_write, zserio_read", "C21": "zserio_bitsize", "C22": "zserio_read, try_from, from_u32", "C23": "zserio_write", "C24": "", "C25": "functions of the schema, and readers and writers of types with conditions, lengths, widths and parameters",
             "C26": "values of enumerators and masks, try_from"}.items():
    TECH[i] = ("contract-based deductive verification: " + GENV % (f, FOUR + (", and zv.mixing" if i == "C25" else "")) + "in addition " + GEN) if f else "bounded stand-in: " + GEN
    LEVEL[i] = "translation_validation" if f else "exploration"
BASE = " Trusted: the verifier, the contracts of the bit-stream dependencies (BitReader, BitWriter) and of the std functions the code calls; the evidence file lists them."
NOTE = {
    "C01": "Every value of every variable-length type at every bit position 0..7 of the stream: exact bits, size and read-back, on the real crate compiled with contract stand-ins for the two bit-stream crates. Loops are bounded by the 9 bytes of the format, unwinding assertions on.",
    "C02": "Every value of every argument type, including the ones a type cannot represent; every 5-byte varsize encoding. c02_lengths (lengths over 2^31-1) is bounded to the length argument, not allocated data.",
    "C03": "Every width 1..64, every value, every bit position 0..7.",
    "C04": "write_float*/read_float* for every bit pattern at every position; half precision conversion itself is the half crate, assumed by contract and checked exhaustively for all 65536 half values by the native layer.",
    "C05": "For contents of every length up to the varsize maximum (strings and slices at most 2^60 bytes). String::from_utf8 and the varsize functions are used through their contracts (the latter decided by C01/C02).",
    "C06": "bitsize functions of all leaf types, all 20 element kinds (packed and not), DeltaContext and Array, for arrays of every length, as long as the size stays below 2^63 or so (stated as preconditions).",
    "C07": "Absence of panics and overflow, never past the end, error on truncation, for every reader state: leaf decoders, element kinds, delta decoding, Array::zserio_read. Termination of the for-loops is by construction.",
    "C08": "All packable element kinds, arrays of every length, through DeltaContext's state machine with the sequence of elements as ghost state. Elements for which packed size arithmetic would exceed 2^63 bits are excluded by precondition.",
    "C09": "The packed layout is the specification function the writer is proved equal to (flag, 6-bit width, first element, deltas); the decision is proved equal to the comparison of the two sizes and the 62-bit limit.",
    "C10": "Every alignment 1..255 and every position.",
    "C11": "Allocation calls carry the precondition may_allocate(n), granted only for n within the pre-allocation limit or the remaining input; every reserve and vec! in the decoders is checked against it.",
    "C12": "bit_length by Verus against the mathematical definition, numbits by both.",
    "C13": "Array::zserio_write/read for every length and every element kind obeying the ArrayTrait contract, which each of the 20 implementations is proved to obey.",
    "C14": "to_bytes/to_writer/from_bytes/from_reader against the object contract; io::Write and io::Read by contract. from_file (opens a file, then from_reader) and the error conversions are outside the verifier's reach: native checks only.",
}
for k in ("C20", "C21", "C22", "C23", "C25", "C26"):
    NOTE[k] = "Proved, for every value of the type, every array length and every start position: the generated functions of the types of the packages named in the technique. The schemas are a sample of all schemas: a change of the generator is seen when it changes the code of one of them. The other packages of /verif/corpus (large compounds, arrays of compounds with parameters, offsets, templates in packed arrays, recursion) are bounded: seeded search, not proved. The contracts of the runtime are assumed here and decided by C03 to C14."
NOTE["C22"] += " Totality is proved where the schema's expressions cannot leave their type; nesting depth and those expressions are the recorded findings."
NOTE["C24"] = "Bounded: the schemas of /verif/corpus and a seeded search over objects and inputs; not proved."
for k in NOTE:
    NOTE[k] += BASE + " See DESIGN.md."
NOTES = "Deductive contracts on the code of /repo: Verus on mechanically extracted functions, Kani on the real crate; a native layer runs the same contracts on the real crate to replay and find failing inputs. See DESIGN.md."
NA = {
    "C27": "Holds only with exceptions nobody can repair locally (the names a1 and a_1, or template instances that differ in bit widths only, share a Rust name), and the conversion is String and regex code of external crates without a contract a verifier can use.",
    "C28": "Quantifies over hash seeds, directory orders and two runs of the whole generator (HashMap iteration, file system, rustfmt): a relational property over library code outside the reach of Verus, Kani or any contract on single functions here.",
    "C29": "Quantifies over all valid schemas and the verdict of rustc on the output; no contract over the generator's functions expresses acceptance by the Rust compiler.",
}
