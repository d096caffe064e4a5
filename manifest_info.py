"""Per-property manifest data.  LEVEL: 'proof' where every part of the property is carried by
obligations discharged without bound on the inputs they quantify over; 'exploration' where the
bounded contract evaluation decides part of the property."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
INFO = {}


def info(pid, level, note):
    INFO[pid] = (level, note)


def level(pid):
    return INFO.get(pid, ("exploration", ""))[0]


COMMON = ("Contracts on the real functions of /repo; the obligations are generated from the current source by the pyvc "
          "verifier (/verif/pyvc) and discharged by z3/cvc5 or exact ring normal form; ")

info("C01", "exploration", "proved for every matrix and every injective qubit tuple at the sizes listed in the evidence (n<=6), "
     "bounded contract evaluation above; floats read as exact numbers in the proofs.")
info("C02", "proof", "every gate, every real parameter value; sympy's elementary functions and floats-as-exact-numbers are trusted.")

PROOF = ("C02", "C04", "C22", "C23", "C24", "C27", "C30")
GAPS = {
 "C01": "gates on more than 6 qubits.",
 "C03": "random deep nestings with concrete matrices (the proofs are by induction over the wrappers).",
 "C04": "multi-phase operations rejecting non-real phases after binding.",
 "C05": "unitaries of circuits of more than 5 operations.",
 "C06": "actual simulation against dense matrices, multi-phase operations on more than 8 amplitudes.",
 "C07": "the text of a parameter expression being read back as the same expression (sympy's printer and parser), the renaming of symbols that sympy would read as something else, and wrapper nestings deeper than those enumerated.",
 "C08": "two-dimensional layouts.",
 "C09": "chains of user-defined rules on concrete circuits.",
 "C10": "parsing of sympy's own classes on random expressions.",
 "C11": "vectors of other lengths than the stated ones; sampling frequencies.",
 "C12": "rounded frequencies exceeding the number of shots; reading files written by hand.",
 "C13": "operators of more than 3 terms, group parities.",
 "C14": "vectors of more than 3 qubits.",
 "C15": "positive definiteness (non-negativity) of the kernel discrepancy.",
 "C16": "operators of more terms and factors than stated, text form of operators with sympy coefficients.",
 "C17": "operators on more modes and longer ladder strings than stated.",
 "C18": "operators on more modes than stated.",
 "C19": "larger matrices, plain-text files, ground states, get_polynomial_tensor and diagonal components.",
 "C20": "groups of more terms than stated.",
 "C21": "more than 3 weights.",
 "C25": "strings of more than 3 factors as complete unitaries (the conjugation lemma itself is unbounded).",
 "C26": "interleavings of several recorders.",
 "C28": "matrix helpers (is_unitary, compare_unitary), value estimates in files.",
 "C31": "singlet generators and lists of excitations beyond the stated sizes, spin of the generators as matrices (the Hubbard model is proved for any grid).",
 "C32": "more orbitals than stated, saving and loading of molecules.",
 "C29": "equality of graphs after networkx's own conversion, arbitrary nesting of artifacts.",
}
for _p in ("C04", "C22", "C23", "C24", "C27", "C30"):
    info(_p, "proof", "every obligation is discharged without bound on the inputs it quantifies over; the trusted library and interface contracts are listed "
         "in the evidence (trusted_base); floats read as exact numbers; a bounded suite on the real code runs as well and supplies failing inputs.")
for _i in range(1, 33):
    _p = f"C{_i:02d}"
    if _p not in INFO and os.path.exists(os.path.join(HERE, "contracts", _p + ".py")):
        info(_p, "exploration", "part of the obligations hold for all inputs, part for all values at stated sizes (both listed apart in the evidence); decided by the "
             "bounded contract evaluation only: " + GAPS.get(_p, "larger sizes.") + " Floats read as exact numbers in the proofs.")
