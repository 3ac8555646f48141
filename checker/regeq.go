package main

// Equivalence of regular expressions, used as unanchored predicates on strings, by simultaneous subset construction.
