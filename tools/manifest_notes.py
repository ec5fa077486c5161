STD = ('machine arithmetic treated as exact; numpy, scipy, pint replaced by contracts; trusted: the interpreter, the '
       'normaliser and z3. ')
OTHER['C22'] = ('other', 'Bounded deductive verification (not counted as proved): every obligation is discharged by the verifier for symbolic eigenvectors and frequencies and every order of the overlaps, but with one atom (three modes) and 2-4 q-points; larger cases by replay tests on the real code.')
NOTES = dict(
 C09=STD + 'Totals and maps proved for all sizes; atom-resolved results bounded in the number of atoms (1, 2, 3), all else symbolic.',
 C10=STD + 'Formula, carried data, phase invariance proved for all sizes.',
 C11=STD + 'Bins, detailed balance, temperature rules and average proved for all sizes; bin edges assumed sorted.',
 C13=STD + 'All obligations proved.',
 C07=STD + 'All object classes and unit attributes; getters, setters and rejection proved for all sizes and values; the unit system (pint) is replaced by an exact model of dimensions and scales.',
 C12=STD + 'Formula, weights, masking proved for all sizes; symmetrisation over a bounded number of atoms with symbolic operations; spglib supplies the operations (trusted).',
 C14=STD + 'Edges, centres, widths, scaling, copy and addition proved for all sizes; splitting bounded in the number of split positions (0-3) and labels (2), positions and data symbolic; the range computation proved for any number.',
 C15=STD + 'Indexing, sums, grouping and selection: data symbolic and spectra of any length; number of lines bounded (stated per obligation), except where marked proved.',
 C16=STD + 'Blanking rule proved for all spectra, energies and angle ranges in both geometries; the cosine enters by its values at the two angles and its turning points; rounding at bin edges not covered.',
 C17=STD + 'Fixed and variable width broadening of every class proved for all sizes and units; the sharing of weights for 1-3 kernels with symbolic samples and bins (bounded); scipy filters are trusted linear operators; kernel accuracy on samples. One known finding (Lorentzian kernel spacing).',
 C08=STD + 'Every class with and without its optional parts, all sizes, contents and units: dictionary and JSON round trips, copies, unmodified inputs. JSON text and memory layout are modelled; offset units are covered by the replay cases.',
 C18=STD + 'Counts, domains, unit length, agreement of the two outputs and powder flow proved for all point counts, with and without jitter; that the counts of np.histogram add up and the size of sin are trusted facts; rounding is covered by the replay cases.',
 C19=STD + 'Coordinate, direction changes, labels, ticks and break points proved for any number of q-points; np.where lists the true positions in increasing order (trusted); duplicated zone centres bounded (paths up to 6 points, every label pattern); seekpath trusted.',
 C22=STD + 'All obligations bounded: one atom (three modes) and 2-4 q-points with symbolic eigenvectors, every order of overlaps; larger cases by replay tests.',
 C23=STD + 'Every constructor with every size symbolic and every number of dimensions 0-5 of one argument at a time: accepted exactly when consistent; one wrong type at a time; weights of the calculations. Element types of arrays are not looked at (precondition); metadata counts bounded (0-3 entries).',
 C01=STD + 'Phases, matrix sum, gradients, weighting, signed roots, eigenvector layout and what the driver feeds both kernels proved for all numbers of atoms, cells, images and q-points and every supercell; numpy.linalg.eigh is trusted. The nearest-image table (_calculate_supercell_images) is only checked by the replay cases (bounded).',
 C06=STD + 'Without splitting: rows, weights and untouched inputs proved for lists of any length, both kernels, grouped or not. With splitting: bounded (lists of up to 3 q-points with every pattern of zone centres and of equivalent points, selected lists of 4; all patterns of 4 in the thorough tier), everything else symbolic. numpy.unique and the kernels enter by their contracts.',
 C04=STD + 'The Ewald sum at every q-point and the LO-TO term proved for any number of atoms; the direction of approach bounded (lists of up to 3 q-points with every pattern of zone centres, selected lists of 4; all in the thorough tier). _dipole_correction_init (which vectors are summed, the q = 0 self term) and the C kernel are only checked by the replay cases, against an independent converged Ewald sum.',
 C05=STD + 'Both corrections proved for any number of atoms and cells as the projection on the three most translational modes (with the offsets the code documents), including when they are refused; what reaches the kernels at every q-point proved for both. numpy.linalg.eigh/argsort enter by contract; the table of cell differences (_get_supercell_relative_idx) and the C kernel by replay cases.',
 C20=STD + 'Eigenvector phases and norms, weights, and what the reader hands to the conversion and reports proved for all sizes. The rearrangement of force constants is bounded in the layout (1-3 atoms, 8 supercell shapes, many orders of atoms), every value of the force constants; more layouts and whole files by replay cases.',
 C24=STD + 'Phonopy extraction (YAML, HDF5), unit conversion, weights and choice of crystal proved for any number of q-points, segments and atoms; .phonon parsing is bounded in the layout (1-2 atoms, up to 3 blocks, every pattern of repeats and directions), every numeral symbolic; larger files by replay cases. One known finding (modes of mesh/qpoints hdf5 files).',
 C02=STD + 'Every kernel of c/dyn_mat.c and c/util.c that does arithmetic, and the driver calculate_phonons with all 24 combinations of options, proved on the current C sources for any number of atoms, cells, images, q-points and lattice vectors, against the same formulas the Python kernels are proved to compute (C01, C04, C05, C21). LAPACK, the CPython/numpy API (c/py_util.c, c/load_libs.c) and machine arithmetic are trusted; dtype and memory order by replay cases of both paths.',
 C03=STD + 'Every array access of the kernels of c/dyn_mat.c, c/util.c and of calculate_phonons proved inside its array, shared outputs written only in the row of the own q-point, memory allocated, released and private per thread, for all sizes. c/py_util.c and c/load_libs.c are outside; replay cases run the extension built with the address sanitiser.',
 C21=STD + 'Derivative of the matrix sum, expectation values, what the driver feeds both kernels and reports, and the widths proved for all sizes; the C kernel by replay cases. One known finding (the dipole term is not differentiated).',
)
