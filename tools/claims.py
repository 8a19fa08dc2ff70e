NAR = {}
DEFNOTE = ('Every obligation generated from the current source is discharged for all inputs and all iterations, no bound. '
           'Assumes: doubles as reals (finite, nonzero denominators), library models of std/Eigen/boost, interface and library calls return, single thread; see DESIGN.md and the evidence file.')
NOTE = {'C01': 'Proved in exact IEEE-754 binary64 semantics for all finite inputs. Assumes the library model of std::max and the clang AST.'}
