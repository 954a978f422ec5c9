DEFAULT = ('Every postcondition, invariant and frame obligation generated from the current source is discharged for all lengths, averaging '
           'factors, rates and data values; reals stand for floats; numpy/scipy models and pyded itself are trusted. '
           'Anything the verifier cannot reach is checked on generated inputs only and listed as bounded in the evidence.')
NOTE = {}
