import graph_checks as G
import hist_checks as H
import num_checks as N
import lin_checks as L
import ech_checks as E
import cert_checks as K
import io_checks as IO
import tool_checks as T
import fault_checks as F
import mem_checks as M
def _ra(k, ok):
    return ("RowAssemblyMC", "RowAssembly" + k, {"expect_ok": ok})


# the protocol of row assembly: three sound configurations, then mistakes that must be revealed
ROWASM = [_ra("1", True), _ra("2", True), _ra("3", True), _ra("Bad1", False), _ra("Bad2", False), _ra("Bad3", False), _ra("Bad4", False)]
def _ps(k, ok, **kw):
    return ("PivotSearchMC", "PivotSearch" + k, dict(expect_ok=ok, **kw))


PIVS = [_ps("1", True), _ps("2", True), _ps("Bad1", False), _ps("Bad2", False), _ps("Bad3", False), _ps("Bad4", False), _ps("3", True, workers=6), _ps("4", True, workers=6)]
def _ms(mod, good, bad, **kw):
    return [(mod, mod + g, dict(expect_ok=True, **kw)) for g in good] + [(mod, mod + b, {"expect_ok": False}) for b in bad]


ECHP = _ms("EchPhases", ["1", "3"], ["Bad%d" % k for k in range(1, 7)])
ECHP_T = _ms("EchPhases", ["2"], [], workers=6)
CERTG = _ms("CertGame", ["1", "3"], ["Bad1", "Bad2", "Bad3"])
CERTG_T = _ms("CertGame", ["2", "4"], [], workers=6)
BUILD = _ms("Builder", ["1", "2"], ["Bad%d" % k for k in range(1, 5)])
BUILD_T = _ms("Builder", ["3"], [], workers=6)
SHAB = _ms("ShaBuf", ["1", "2"], ["Bad%d" % k for k in range(1, 5)])
REACH = _ms("ReachAlgo", ["1", "3"], ["Bad1", "Bad2"])
REACH_T = _ms("ReachAlgo", ["2"], [], workers=6)
MATCHA = _ms("MatchAlgo", ["1", "2", "3"], ["Bad1", "Bad2", "Bad3"])
SCCA = _ms("SccAlgo", ["1"], ["Bad1", "Bad2", "Bad3"])
SCCA_T = _ms("SccAlgo", ["2"], [], workers=8)
DMA = _ms("DmAlgo", ["1", "2", "3"], ["Bad%d" % k for k in range(1, 6)])
DMA_T = _ms("DmAlgo", ["4", "5"], [], workers=6)
SMSR = _ms("SmsReader", ["1"], ["Bad%d" % k for k in range(1, 8)]) + [("SmsLayers", "SmsLayers")]
SMSR_T = _ms("SmsReader", ["2"], [], workers=6)
OUTS = _ms("OutStream", ["1", "2", "3"], ["Bad%d" % k for k in range(1, 5)])
GROW = _ms("Grow", ["1"], ["Bad%d" % k for k in range(1, 7)])
GROW_T = _ms("Grow", ["2"], [])
CHECKS = {
    "C24": (M.c24, "exploration", {"plain": 1, "heap": 1, "models": GROW, "models_thorough": GROW_T}),
    "C23": (F.c23, "exploration", {"plain": 1, "tools": 1, "models": OUTS}),
    "C21": (T.c21, "exploration", {"drv": False, "tools": 1}),
    "C22": (IO.c22, "exploration", {"plain": 1}),
    "C17": (IO.c17, "exploration", {"plain": 1, "models": SMSR, "models_thorough": SMSR_T}),
    "C09": (L.c09, "exploration", {"plain": 1, "models": ROWASM[:5], "models_thorough": ROWASM[5:]}),
    "C07": (K.c07, "exploration", {"plain": 1, "models": CERTG, "models_thorough": CERTG_T}),
    "C06": (K.c06, "exploration", {"plain": 1}),
    "C05": (E.c05, "exploration", {"plain": 1}),
    "C04": (E.c04, "exploration", {"plain": 1}),
    "C03": (E.c03, "exploration", {"plain": 1}),
    "C02": (E.c02, "exploration", {"plain": 1}),
    "C01": (E.c01, "exploration", {"plain": 1, "timeout_thorough": 400, "models": ECHP, "models_thorough": ECHP_T}),
    "C08": (L.c08, "exploration", {"plain": 1, "models": PIVS[:6], "models_thorough": PIVS[6:]}),
    "C20": (L.c20, "exploration", {"plain": 1}),
    "C10": (L.c10, "exploration", {"plain": 1, "models": [("OverrideCheck", "OverrideCheck")]}),
    "C11": (L.c11, "exploration", {"plain": 1, "models": REACH, "models_thorough": REACH_T}),
    "C18": (N.c18, "exploration", {"plain": 1}),
    "C19": (N.c19, "exploration", {"plain": 1, "models": SHAB, "timeout": 120}),
    "C12": (G.c12, "exploration", {"plain": 1, "models": MATCHA}),
    "C13": (G.c13, "exploration", {"models": [("OverrideCheck2", "OverrideCheck2")] + DMA, "models_thorough": DMA_T}),
    "C14": (G.c14, "exploration", {"plain": 1, "models": SCCA, "models_thorough": SCCA_T}),
    "C15": (H.c15, "exploration", {"models": BUILD, "models_thorough": BUILD_T}),
    "C16": (H.c16, "exploration", {"plain": 1}),
}
NA = {}
_T = "TLA+ specification checked with TLC; recorded executions of the real code replayed against it"
NOTES = {
    "C24": (_T, "Every recorded run in which the heap refused a request is judged by TLC: stopped with a message and a failure status, or right according to the module of its operation. The discipline of growing under refusals (Grow) is checked exhaustively."),
    "C23": (_T, "Writers and readers run over devices that fail at a chosen byte (lasting or transient), tools run under file-size limits, on full devices, closed descriptors and abandoned pipes; TLC judges status, stored bytes and results. The stream protocol (OutStream) is checked exhaustively."),
    "C21": (_T, "Every run of every tool (about 2700 processes) is judged from the bytes of its input files to the bytes of its output and its exit status: the specification parses both sides and decides the mathematical claim, certificates included."),
    "C22": (_T, "Every recorded image is compared pixel by pixel with the picture defined in C22.tla (cells, blocks of the decomposition, order of gray levels)."),
    "C17": (_T, "Every byte string is given a meaning by the grammar of Sms.tla (refuse, accept with this matrix and digest, tolerated); recorded outcomes of the reader are judged against it, written files are parsed back by the specification."),
    "C09": (_T, "The assembly protocol (RowAssembly) is checked exhaustively for 2-3 threads with growth, against RowStore; every write and reallocation of recorded runs of the real code is replayed against RowStore, and the distinct results of ~80000 scheduled runs are judged against the definition."),
    "C07": (_T, "Every verifier decision judged by TLC against the exact definition (digest, modulus, indices, canonical responses, both challenge equations); certificate files judged against a grammar in Cert.tla."),
    "C06": (_T, "Every honest certificate judged by TLC: exact rank, nonsingular pivotal block, the two challenge equations recomputed with SHA-256 counter-mode draws, identity after writing and reading."),
    "C05": (_T, "Every recorded factorization and derived result judged by TLC against the definition over Z/p (exact linear algebra in Ech.tla/LinAlg.tla); 1-4 threads under deterministic schedules."),
    "C04": (_T, "Every recorded factorization and derived result judged by TLC against the definition over Z/p (exact linear algebra in Ech.tla/LinAlg.tla); 1-4 threads under deterministic schedules."),
    "C03": (_T, "Every recorded factorization and derived result judged by TLC against the definition over Z/p (exact linear algebra in Ech.tla/LinAlg.tla); 1-4 threads under deterministic schedules."),
    "C02": (_T, "Every recorded factorization and derived result judged by TLC against the definition over Z/p (exact linear algebra in Ech.tla/LinAlg.tla); 1-4 threads under deterministic schedules."),
    "C01": (_T, "Every recorded factorization and derived result judged by TLC against the definition over Z/p (exact linear algebra in Ech.tla/LinAlg.tla); 1-4 threads under deterministic schedules."),
    "C08": (_T, "The transaction protocol (PivotSearch) is checked exhaustively for all matrices of a small family and 2-3 threads; every distinct outcome of ~200000 scheduled runs of the real code is judged by TLC (entries of A, distinct rows and columns, acyclic order, exact U and L rows), with switches at every memory access."),
    "C20": (_T, "Every recorded elimination judged by TLC: rank, row space, exact P*A = L*U, permutations, canonical output, untouched padding; round trips of residues at the extremes of every representation."),
    "C10": (_T, "Every recorded Schur complement judged row by row by TLC against elimination in Z/p, labels and lower-factor coefficients as sets; deterministic schedules for 1-4 threads."),
    "C12": (_T, "Every recorded matching is judged by TLC against the declarative definition (valid, maximum both by size and by Berge's criterion); exhaustive up to 3x3 patterns, sampled beyond. Trusts TLC and the Java evaluation of MaxMatch (cross-checked by OverrideCheck)."),
    "C13": (_T, "Every recorded decomposition is judged by TLC against the declarative coarse parts (which lines can be missed by a maximum matching) and mutual reachability of the square part; exhaustive up to 3x3, sampled beyond."),
    "C14": (_T, "Every recorded decomposition is judged by TLC against mutual reachability; exhaustive up to 3 vertices, sampled up to 30."),
    "C15": ("TLA+ state machine of the triplet builder; call histories of the real code replayed against it by TLC", "Histories are validated call by call; all insertion sequences of length 3 into 2x2 mod 3, random histories with 64-bit values for primes up to 4294967291."),
    "C16": ("TLA+ state machine over a table of matrices; call histories of the real code replayed against it by TLC", "Chains of transformations are validated call by call against the mathematical meaning, inputs re-checked after each call."),
    "C18": (_T, "Batches of operations judged against exact arithmetic modulo p; exhaustive for p <= 13, boundary-directed for 23 primes up to 4294967291."),
    "C19": (_T, "Digests judged against SHA-256 as defined in Sha.tla, generator words and field draws against the counter-mode definition."),
    "C11": (_T, "Every recorded solve judged by TLC against reachability and the defining equation x*U = b; several solves per workspace."),
}
