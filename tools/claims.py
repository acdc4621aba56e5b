COMMON = 'Proved for all inputs over the compiler\'s MIR of the real functions, function by function; dependencies enter through the assumed contracts listed in the evidence.'
CLAIMED = {
    **{p: COMMON for p in 'P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 P24'.split()},
}
NA = {
    'P23': 'the claim is about satisfiability of a system of polynomial constraints laid out by the code, not about pre- and postconditions of code; no contract within reach of a deductive program verifier here expresses soundness of the constraint system (the witness and public-input side is P05, P06 and P24)',
}
