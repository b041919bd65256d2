"""What each check runs."""


class T:
    """Traces of the real code checked against the specification."""

    def __init__(self, driver, n, nt=None, rounds=8, spec="AminoTrace", shards=6, heap=3500, kind="plain", limit=300):
        self.driver, self.n, self.nt, self.rounds = driver, n, nt or 4 * n, rounds
        self.spec, self.shards, self.heap, self.kind, self.limit = spec, shards, heap, kind, limit


class M:
    """A model of the specification checked exhaustively."""

    def __init__(self, spec, cfg=None, cfg_thorough=None, env=None, heap=12000, workers=8, quick=True):
        self.spec, self.cfg, self.cfg_thorough, self.env = spec, cfg or spec, cfg_thorough, env
        self.heap, self.workers, self.quick = heap, workers, quick


class G:
    """Cases that a model enumerates: its invariants are checked and the real
    code goes through the same cases, with the drivers."""

    def __init__(self, model, setup, drivers, n, nt, only="", shards=7, heap=3000, rounds=1, **env):
        self.model, self.setup, self.drivers, self.n, self.nt = model, setup, drivers.split(), n, nt
        self.only, self.shards, self.heap, self.rounds = only, shards, heap, rounds
        self.env = env     # name: (value of the quick check, of the thorough one)
        self.kind, self.limit, self.spec = "plain", 300, "AminoTrace"


def S(mode, drivers, n=60, nt=300, edits=0, stride=1, stride_t=3, short=0, short_t=0, only="", **more):
    """All small values of small types, and what single edits make of their
    encodings, and short inputs of all kinds (every so many-th)."""
    return G("ModelValues", "smallenv", drivers, n, nt, only=only, rounds=2, MODE=(mode, mode), EDITS=(edits, edits),
             STRIDE=(stride, stride_t), SHORT=(short, short_t), **more)


def H(focus, length=3, stride=1, length_t=4, stride_t=1):
    """All short histories of some operations on a codec."""
    return G("ModelRegistry", "regenv", "histories", 0, 1, only=focus, LENGTH=(length, length_t), STRIDE=(stride, stride_t))


def R(length=4, stride=8, length_t=5, stride_t=12):
    """All short streams and all ways to get them."""
    return G("ModelStream", "streamenv", "small-read", 0, 1, LENGTH=(length, length_t), STRIDE=(stride, stride_t))


def P(stride=3):
    """The primitives."""
    return G("ModelPrim", "primenv", "small-prim", 0, 1, STRIDE=(stride, 1))


PLAN = {
    "C01": [T("rt", 24000), S("bin", "small-rt")],
    "C02": [T("enc", 24000), S("bin", "small-enc")],
    "C03": [T("encs", 24000), S("bin", "small-encs")],
    "C04": [T("total", 40000), S("bin", "small-total", n=30, edits=1, stride=25, short=16, short_t=4)],
    "C05": [T("dec", 30000), S("bin", "small-dec", edits=1, stride=25, short=16, short_t=3)],
    "C06": [T("prim", 60000), P()],
    "C07": [T("evo", 20000), S("bin", "small-evo", n=30, only="evo")],
    "C08": [T("stream", 3000), R()],
    "C09": [T("limit", 16000), R(stride=7)],
    "C10": [T("names", 4000)],
    "C11": [T("iface", 20000), S("bin", "small-rt small-dec", edits=1, stride=40, short=40, short_t=6, only="iface"),
            S("json", "small-jrt", only="iface")],
    "C12": [T("conflict", 1500), H("conflict")],
    "C13": [T("seal", 1500), T("sealsched", 4000, kind="sched"), H("seal")],
    "C14": [T("jrt", 30000), S("json", "small-jrt")],
    "C15": [T("jenc", 30000), S("json", "small-jenc")],
    "C16": [T("jdec", 36000), S("json", "small-jdec", n=30, edits=1, stride=20, stride_t=5, short=8, short_t=2)],
    "C17": [T("time", 14000), S("bin", "small-rt small-dec", edits=1, stride=9, short=20, short_t=3, only="time"),
            S("json", "small-jdec", n=30, edits=1, stride=20, stride_t=4, short=20, short_t=3, only="time")],
    "C18": [T("copy", 24000), S("bin", "small-copy")],
    "C19": [T("conc", 700, nt=4000, spec="AminoConc", kind="race"), T("stress", 20, nt=80, kind="race"),
            T("csched", 250, nt=1500, spec="AminoConc", kind="sched")],
    "C20": [T("alias", 3500)],
    "C21": [T("repr", 30000), S("bin", "small-rt small-dec", edits=1, stride=20, short=30, short_t=5, only="repr"),
            S("json", "small-jdec", n=30, edits=1, stride=30, stride_t=7, short=15, short_t=4, only="repr")],
    "C22": [T("scan", 9000), S("bin", "small-walk")],
    "C23": [T("list", 1500), H("list")],
    "C24": [T("fail", 1500), H("fail")],
}

NOTES = {
    "C01": "Every recorded round trip of the real code over random types, registrations and values is checked against the specification's relation of permitted normalisations; exploration is bounded by the number of cases per run.",
    "C02": "The bytes of the real encoder are compared with those the specification computes, over random types, tags, registrations and values.",
    "C03": "Several encodings of each value, on twin codecs and after other calls, are compared as one recorded history.",
    "C04": "Every call on hostile bytes must end in a value or an error and allocate in proportion to its input; hostile bytes are made by a type-directed sloppy encoder and mutation.",
    "C05": "The outcome and value of decoding are compared with those the specification computes, for valid, sloppy, mutated and random bytes and populated targets.",
    "C06": "Every primitive pair is compared with the specification on boundary and random values and arbitrary bytes.",
    "C07": "Struct types are grown by random fields at every depth; both directions are checked against the specification.",
    "C08": "Whole streams, through readers that return arbitrary pieces and fail anywhere, and writers that fail anywhere, are replayed as histories of the specification's stream state.",
    "C09": "Limits around the size of each message and every kind of malformed prefix are checked against the specification's account of a call: its outcome and the bytes it may read.",
    "C10": "The specification computes SHA-256 itself and every use of the bytes is compared with it, over random names and names chosen for leading zero bytes and equal prefixes.",
    "C11": "Every kind of holder of interface values, with prefix-sharing names, both written forms and hostile bytes, is compared with the specification.",
    "C12": "Histories of registrations and other calls are replayed through the specification's registry state machine; each outcome and each later result must be what the state gives.",
    "C13": "Histories with sealing, and registrations racing with it, are replayed through the registry state machine.",
    "C14": "Every recorded JSON round trip of the real code is checked against the specification's normal form of the value, over random types, registrations and values.",
    "C15": "The text of the real encoder, plain and indented and on repeated calls, is compared with the one that the specification computes from the value.",
    "C16": "The specification parses the text and decodes it for the target type; outcome and value are compared with those of the real code for valid, sloppy, mutated and random texts and populated targets.",
    "C17": "Every time that is decoded must be the instant encoded, at its precision, in UTC; every malformed one must be refused: the specification does the arithmetic, over boundary and random instants, locations and bytes, in both formats.",
    "C18": "A copy is compared with the original as a value, by the memory that the two reach, and after each of them is written over, for random types with copy methods, repr methods, interfaces, maps and times.",
    "C19": "Concurrent histories recorded under the race detector, with first uses, registrations, sealing and re-entrant methods, readers and writers, are explained by a search over the specification's interleavings; a data race, a call that does not end or a history without an explanation is a violation.",
    "C20": "Buffers and values that somebody holds are the state of a session; every one is looked at again after every call and after every other is written over, over its whole capacity, and the memory they reach is compared.",
    "C21": "Types most of which have a representation, at every position and in both formats, with values for which their methods return errors: bytes, text, outcomes and values are compared with those the specification gives the representation.",
    "C22": "The specification parses the bytes without their types, says which fields a value of the type may have at every level, and what the tool prints for valid, nested, mutated and random bytes.",
    "C23": "The listing is compared byte by byte with the one the registry state gives, after every kind of history.",
    "C24": "Histories in which calls fail in every known way are replayed through the registry state machine, which failed calls do not change.",
}
