"""PyVC: a contract-based deductive verifier for the Python code of /repo.

The verified text is the code that runs: the real modules are imported from /repo and executed by CPython on
symbolic values (operator overloading); every path is explored by re-execution, every postcondition on every path is
discharged for all values by z3 or by the exact trigonometric algebra in pv.num.  See DESIGN.md.
"""
