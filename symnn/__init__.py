"""symnn: solver-based checking of the real nannos sources.

The package executes the functions of /repo/nannos *unmodified* on symbolic
numbers.  nannos is written against a pluggable array backend; `shim.py` is a
backend whose array elements are symbolic terms, `load.py` imports the sources
from /repo's working tree on top of it, `core.py` holds the terms, the path
explorer and the solver queries, `run.py` drives a check.
"""
