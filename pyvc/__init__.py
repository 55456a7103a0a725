"""pyvc: a contract verifier for the Python subset used by event-generator.

The real source files of the repository are read on every run, their loops are
rewritten mechanically into calls of a loop-rule (see loader.py), and the
resulting code objects are executed over symbolic values (sym.py, tensor.py).
Every feasible path yields verification conditions that are discharged by a
ring normaliser and z3 (prover.py).
"""
