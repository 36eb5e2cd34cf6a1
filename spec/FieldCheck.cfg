CONSTANT P = 97
INIT Init
NEXT Next
INVARIANT Agree
