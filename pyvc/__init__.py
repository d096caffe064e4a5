"""pyvc: a small contract-based deductive verifier for (a subset of) Python.

The verified text is the AST of the real source files under /repo, parsed on every
run; nothing is hand-copied.  See DESIGN.md for the semantics and the trusted base.
"""
