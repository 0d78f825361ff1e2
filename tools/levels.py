B = ("Bounded, not proved: contracts on the real code are evaluated at run time over a stated number of random inputs (bound and seed in the "
     "evidence). ")
LEVELS = {
    "C15": ("exploration", B + "Only the refusal of factors of zero or below is proved. The interpolation loops branch too often for the path "
            "enumeration of the verifier."),
    "C32": ("exploration", B + "The functions hand all work to the yaml package, whose emitter and parser are outside the verifier's reach."),
    "C16": ("proof", DEF + " Proved: the content of a one-axis spectrum is conserved for every binning, content and resolution (three classes, "
            "gaussian and poisson; Spectra.fill by contract; the energy proofs take minutes of solver time and are reported as undecided, not "
            "as a violation, when they run out of it), and the refusal of unknown axes. Bounded only: several axes, proportions, window."),
    "C27": ("proof", DEF + " Bounded only: flat tuples with coincidence cuts (the loop carries a record of the previous entry)."),
    "C30": ("proof", DEF + " h5py is a stand-in and json is assumed to round-trip plain values in the proofs. Bounded only: limit results with "
            "a fit stored per scale, and the text form of dictionaries."),
}
NA = {}
