"""symx: symbolic execution of JAX programs with an SMT solver deciding.

``core``    symbolic scalars (polynomials over atoms), z3 translation, path context
``trace``   a JAX Trace that executes the real code on symbolic arrays
``runner``  case scheduling, replay, evidence, exit codes
"""
