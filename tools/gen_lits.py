#!/usr/bin/env python3
"""Writes mc/src/lits.rs: one m! literal for every row-length pattern (<= 4 rows of 1..4 elements) and some larger ones."""
import itertools, os
out = ["// generated by tools/gen_lits.py\n", "pub type Lit = (&'static [usize], fn(&mut dyn FnMut() -> u32) -> Matrix<u32>);\n", "pub static LITS: &[Lit] = &[\n"]
pats = [p for k in range(1, 5) for p in itertools.product(range(1, 5), repeat=k)]
pats += [(1,) * k for k in range(5, 13)] + [(k,) for k in range(5, 13)] + [(k,) * k for k in range(5, 9)]
pats += [(5, 5, 5, 5, 4), (5, 5, 5, 5, 6), (4, 6, 5, 5, 5), (6, 4, 5, 5, 5), (2, 2, 2, 2, 2, 1, 3), (8, 8, 8, 8, 7, 9, 8, 8), (3,) * 11, (3,) * 10 + (2,), (3,) * 10 + (4,), (7, 7, 7), (1, 9), (9, 1), (12, 12), (11, 13), (13, 11)]
for p in pats:
    body = "; ".join(", ".join(["n()"] * k) for k in p)
    out.append("    (&[%s], |n| m!(%s)),\n" % (", ".join(map(str, p)), body))
out.append("];\n")
open(os.path.join(os.path.dirname(__file__), "..", "mc", "src", "lits.rs"), "w").write("".join(out))
