VG = 'value-graph comparison with per-function specifications (abstract interpretation to a normal form)'
DF = 'dataflow / effect rules over the resolved syntax tree'
NOTE_VG = ('Every listed function is turned from source into a value graph for arbitrary arguments and compared with its specification; equal normal forms prove the function right for all inputs (given the class invariants and the library model). '
           'Where the normal forms differ, an alarm needs in addition a valuation separating the two graphs; otherwise the function is reported as not proved in the evidence. Trusts the interpreter in sa/ and the specifications in specs/.')
NOTE_DF = 'Sound for the constructs listed in DESIGN.md; trusts the call resolution of sa/loader.py and the tables in the rule.'
CLAIMS = {c: (VG, NOTE_VG) for c in 'C01 C02 C03 C04 C05 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26'.split()}
CLAIMS.update({c: (DF, NOTE_DF) for c in 'C06 C07 C08 C09 C10 C27 C28 C29'.split()})
NA = {
    'N01': 'true minimum over an infinite family of curves: a numerical fact about the mathematics and the completeness of the enumeration, not visible in the shape of the code',
    'N02': 'termination within a tolerance depends on runtime numerical convergence; no static ranking argument in reach (known: estimate_dilation_sequence can loop forever when max_iter is passed through)',
    'N03': 'completeness of the enumeration quantifies over all continuous paths and gates, a combinatorial theorem rather than a property of code paths; the soundness half is C20-C24',
    'N04': 'dilation values of specific curves are numerical results that only running the estimation can produce',
    'N05': 'time and memory of runs: run-time quantities that no static bound in reach decides',
}
