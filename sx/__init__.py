"""sx: a small solver-driven symbolic executor for Python.

The functions of /repo are executed by CPython itself, from an AST-instrumented copy of their current
source, on proxy values that carry z3 terms.  Every branch on a proxy asks the solver which sides are
feasible, and every feasible side is explored by re-execution.
"""
