"""pysym: a small path-forking symbolic executor for ordinary Python source.

The modules under test are re-read from the repository on every run, their AST
is rewritten so that operations CPython implements in C (string formatting,
`in`, dict/set displays, str methods with symbolic arguments, list indexing)
reach the proxies in this package, and they are executed with z3-backed proxy
values.  See DESIGN.md for the claim this supports and for every stub.
"""
