from vlib.core import part, label, known, Reject, tmpdir, rng, HarnessError, check, close, nontrivial
