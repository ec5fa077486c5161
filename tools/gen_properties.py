import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b) for a,b in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)
FC='euphonic/force_constants.py'
p('C01','Interpolated dynamical matrix, frequencies and eigenvectors follow the formula',
 "Interpolating force constants at any q-point without long-range or sum-rule corrections diagonalises exactly D(q)[ia,jb] = (m_i m_j)^(-1/2) * sum over supercell cells R and their nearest periodic images L of Phi_R[ia,jb]/N_images * exp(2 pi i q.(R+L)). The frequencies returned are the square roots of the magnitudes of its eigenvalues carrying the sign of the eigenvalue, in ascending eigenvalue order, and eigenvector row m of the result is the normalised eigenvector of eigenvalue m, arranged [mode, atom, xyz]. The result is the same for q and for q plus any reciprocal-lattice vector.",
 ['inputs','configurations'],"every crystal, supercell matrix, set of force constants, image table and q-point",
 "The installed tests compare stored outputs for a handful of q-points of a few materials (most phonon-mode tests cannot even be collected here); the formula has to hold for every supercell, atom count and q.",
 [FC,'euphonic/util.py'],[('phase and dynamical-matrix sum','ForceConstants._calculate_dyn_mat, _calculate_phases'),('mass weighting, diagonalisation, signed square root','ForceConstants._calculate_phonons_at_q'),('image bookkeeping','ForceConstants._calculate_supercell_images, util.get_all_origins')],
 observe=['frequencies and eigenvectors of calculate_qpoint_phonon_modes'])
p('C02','C extension computes the same mathematics as the pure Python code',
 "For any input the compiled and the pure-Python calculation paths build the same dynamical matrix (one in the complex-conjugate convention), the same dipole and LO-TO corrections, the same mass weighting, sign-preserving frequencies and mode gradients, so frequencies agree and eigenvectors agree up to the freedom of degenerate subspaces. This does not depend on the number of threads, or on the dtype (int, float32, float64) or memory order of the arrays the user supplied.",
 ['inputs','configurations','schedules'],"every input accepted by both paths, every thread count and array layout",
 "The tests run both paths on the same few files with default array layouts; agreement must hold for every atom count, every dielectric tensor, every layout.",
 ['c/dyn_mat.c','c/util.c','c/_euphonic.c',FC,'euphonic/validate.py'],[('C dynamical matrix and gradients','calculate_dyn_mat_at_q'),('C Ewald sum','calculate_dipole_correction, det_array, cell_volume'),('C LO-TO term','calculate_gamma_correction'),('C mass weighting, sign, mode gradients','mass_weight_dyn_mat, evals_to_freqs, calculate_mode_gradients'),('argument layout normalisation','validate._ensure_contiguous_args/_attrs')])
p('C03','C kernels read and write only inside their arrays',
 "Whatever the numbers of atoms, cells, images, q-points, lattice vectors, the compiled extension never reads or writes an element outside the arrays it is given or has allocated, and each parallel iteration writes only its own q-point's slots of the shared outputs.",
 ['inputs','schedules'],"all sizes and all index tables satisfying the callers' contracts",
 "Out-of-bounds accesses and cross-iteration writes are silent for most sizes; tests use a few sizes and never look at the memory around the arrays.",
 ['c/dyn_mat.c','c/util.c','c/_euphonic.c'],[('pointer arithmetic of every kernel','c/dyn_mat.c, c/util.c'),('per-q-point partition of the shared arrays','calculate_phonons in c/_euphonic.c')])
p('C04','Long-range dipole and LO-TO splitting corrections follow the Ewald formulas',
 "For a polar crystal the correction added at q is the Born-charge-contracted Ewald sum: reciprocal-space minus real-space terms over the precomputed lattice vectors with the G=0 term dropped at q=0, minus the q=0 self term on the atomic diagonal, giving a Hermitian matrix. At a zone centre approached along a non-zero direction the extra term is 4 pi/(V q.eps.q) (Z_i q)(Z_j q), and there is no extra term when there is no direction (a zero step, or a step by a reciprocal lattice vector); the direction used is the step to the next q-point in the list (or from the previous one at the end of the list or when the next is the same point up to a reciprocal lattice vector).",
 ['inputs','configurations'],"every crystal, Born charges, dielectric tensor, Ewald parameter, q-point and q-direction list",
 "The tests check two polar materials with diagonal dielectric tensors against stored numbers, and most of those tests lack their data here.",
 [FC],[('Ewald correction','ForceConstants._calculate_dipole_correction'),('Ewald initialisation','ForceConstants._dipole_correction_init'),('non-analytical term','ForceConstants._calculate_gamma_correction'),('direction of approach','ForceConstants._get_q_dirs')])
p('C05','Acoustic sum rule corrections zero the acoustic modes and nothing else',
 "With the reciprocal-space correction the matrix added to every q-point is the same, and at the zone centre it moves exactly the three most-translational eigenvalues to zero (within the documented tiny offsets) while leaving every other eigenpair of the zone-centre matrix unchanged. With the real-space correction the same holds for the full supercell force constants, which are rebuilt from the stored ones by lattice translation and cut back to the stored layout; when three acoustic modes cannot be identified the data are used uncorrected and a warning is issued.",
 ['inputs','configurations'],"every set of force constants, with and without dipole terms",
 "Tests compare a few materials' corrected values; whether the correction acts only on the acoustic subspace for every input is not observable from them.",
 [FC],[('reciprocal correction','ForceConstants._enforce_reciprocal_asr'),('real-space correction','ForceConstants._enforce_realspace_asr'),('mode identification','ForceConstants._find_acoustic_modes')])
p('C06','Each requested q-point keeps its own row, and weights are conserved',
 "Results come back one row per requested q-point in the order given, each row being the result for that q-point, whether or not equivalent q-points are grouped internally. When zone-centre points are split into pairs, each pair shares the weight of the original equally so the total weight and every other q-point's weight are unchanged, the end points of the list are not split, and the caller's arrays are left untouched.",
 ['inputs','configurations'],"every list of q-points (repeats, equivalents, zone centres anywhere) and every option combination",
 "Tests use particular paths with zone centres in a few positions; the guarantee is over all lists and option combinations.",
 [FC],[('grouping of equivalent q-points and insertion of zone-centre pairs','ForceConstants._calculate_phonons_at_qpts')])
p('C07','Changing a unit attribute never changes the physical quantity',
 "For every data object and every quantity with a unit attribute, assigning a dimensionally consistent unit changes only how the quantity is reported: the reported quantity equals the original converted to that unit, and every derived result is the same physical quantity. Assigning a quantity in any compatible unit stores it so that reading it back gives the same physical quantity in the assigned unit, and an inconsistent unit is rejected leaving the object unchanged.",
 ['inputs','histories'],"every class, every quantity attribute, every sequence of unit assignments and value assignments",
 "Tests set one or two units per class; the guarantee covers every unit and every sequence of assignments.",
 ['euphonic/crystal.py',FC,'euphonic/qpoint_frequencies.py','euphonic/structure_factor.py','euphonic/debye_waller.py','euphonic/spectra.py','euphonic/validate.py'],[('unit attributes and quantity properties','property getters and setters of every data class'),('unit validation','validate._check_unit_conversion, __setattr__')])
p('C08','Dictionary and JSON round trips reproduce the object',
 "For every data class, converting an object to a dictionary and back, or writing it to a JSON file and reading it back, gives an object with the same physical content, units, labels and metadata; optional parts that were absent stay absent. The dictionary shares no array and no list of tick labels with the object, and reading from a dictionary does not modify it.",
 ['inputs'],"every instance of every class, with and without its optional parts, in any display unit",
 "Tests round-trip a few stored objects per class; it must hold for all contents and optional combinations.",
 ['euphonic/io.py','euphonic/crystal.py',FC,'euphonic/qpoint_frequencies.py','euphonic/qpoint_phonon_modes.py','euphonic/structure_factor.py','euphonic/debye_waller.py','euphonic/spectra.py'],[('object to dict','io._obj_to_dict'),('dict to object','io._process_dict, from_dict of every class'),('JSON','io._to_json_dict, io._from_json_dict, io._obj_from_json_file')])
p('C09','Densities of states count every mode in its bin with its weight',
 "Without broadening, each bin of a density of states is the sum over q-points and modes whose frequency lies in that bin (lower edge included) of the q-point weight times 3 over the number of branches (or of the given mode weight), divided by the bin width and by the total weight, so it does not change when all weights are scaled. Atom-resolved densities of states use each atom's share of the eigenvector norm and, without neutron weighting, sum to the total; neutron weighting multiplies each by that atom's cross-section times mean mass over its mass. Adaptive broadening replaces each mode's bin by a normal distribution of its own width, not less than the minimum width, and the per-q-point map has the single-q-point result in each row.",
 ['inputs','configurations'],"every set of frequencies, weights, eigenvectors, bins (any unit and spacing), widths and cross-sections",
 "Tests compare stored spectra for a few files, where wrong normalisation for non-uniform bins or weights can go unnoticed.",
 ['euphonic/qpoint_frequencies.py','euphonic/qpoint_phonon_modes.py'],[('histogram and adaptive density of states','QpointFrequencies._calculate_dos'),('atom-resolved','QpointPhononModes.calculate_pdos'),('map','QpointFrequencies.calculate_dos_map')])
p('C10','Structure factors follow the one-phonon coherent formula',
 "For every q-point and mode the structure factor is |sum over atoms of b_k/sqrt(m_k) exp(2 pi i q.r_k) exp(-Q.W_k.Q) (conjugate eigenvector . Q)|^2 divided by twice the number of atoms times |frequency|, with the Debye-Waller term present only when supplied. It is never negative, does not change when an eigenvector is multiplied by a phase, and carries the q-points, weights and temperature it was calculated from.",
 ['inputs'],"every set of modes, scattering lengths and Debye-Waller exponents",
 "The tests of this calculation cannot be collected here for lack of data files; the formula must hold for every structure.",
 ['euphonic/qpoint_phonon_modes.py','euphonic/structure_factor.py'],[('formula','QpointPhononModes.calculate_structure_factor')])
p('C11','S(Q,w) maps bin intensity correctly and obey detailed balance',
 "Each energy bin of an S(Q,w) map is the sum over modes of structure factor times (1+n) for modes whose frequency lies in the bin plus structure factor times n for modes whose negative frequency lies in the bin, divided by the bin width, where n is the Bose occupation at the temperature in force; intensity outside the bins is dropped. Hence the -w and +w intensities of a mode are in the ratio exp(-w/kT), vanishing at zero temperature; a temperature inconsistent with the stored one is refused, and without any temperature both sides are unweighted. The one-dimensional average is the weighted mean of the map's rows.",
 ['inputs','configurations'],"every structure factor, bin set (any unit and spacing, negative energies included), temperature and weights",
 "Tests sample a few temperatures and bin sets.",
 ['euphonic/structure_factor.py'],[('binning','StructureFactor._bose_corrected_structure_factor'),('occupation','StructureFactor._bose_factor'),('average','StructureFactor.calculate_1d_average')])
p('C12','Debye-Waller exponents equal the weighted mode sum, symmetrised',
 "The Debye-Waller exponent of atom k is 1/(4 m_k) times the weight-averaged sum over modes above the frequency cutoff of Re(e e*) coth(w/2kT)/w, with coth replaced by one at zero temperature; it is a symmetric matrix for each atom, independent of how q-points are batched, and unchanged by scaling all weights. Symmetrisation replaces it by the average over the crystal's symmetry operations of the rotated matrices of equivalent atoms, which leaves the trace summed over atoms unchanged.",
 ['inputs'],"every set of modes, weights, temperatures, cutoffs and symmetry groups, any number of q-points",
 "Tests use grids smaller than one batch and three temperatures.",
 ['euphonic/qpoint_phonon_modes.py','euphonic/debye_waller.py','euphonic/crystal.py'],[('mode sum','QpointPhononModes.calculate_debye_waller'),('symmetry mapping','Crystal.get_symmetry_equivalent_atoms')])
p('C13','Crystal geometry: reciprocal cell, volume and grid spacing',
 "For every cell the reciprocal vectors satisfy a_i.b_j = 2 pi delta_ij in the units reported, the volume is the (positive) magnitude of the triple product of the cell vectors, and both are the same physical quantity whatever the display unit. The recommended Monkhorst-Pack grid is the coarsest whose spacing along each reciprocal vector does not exceed the requested one, and a Monkhorst-Pack grid of given size has exactly that many points, equally spaced, symmetric about zero and all distinct within one reciprocal cell. Converting Cartesian wavevectors to fractional coordinates and back is the identity.",
 ['inputs'],"every cell (any handedness and unit), spacing and grid size",
 "Tests sample a few cells and grids.",
 ['euphonic/crystal.py','euphonic/util.py','euphonic/powder.py'],[('reciprocal cell and volume','Crystal.reciprocal_cell, cell_volume'),('grid','Crystal.get_mp_grid_spec, util.mp_grid'),('conversion','powder._qpts_cart_to_frac')])
p('C14','Spectrum bin edges, centres, scaling and splitting are mutually consistent',
 "For any spectrum, bin edges and centres derived from each other are ordered and consistent: centres lie midway between edges, edges between points lie midway with the end points as outer edges, and widths are the differences of edges. Multiplying a spectrum scales its values and nothing else, copies are independent, and adding spectra adds values on the same axis. Splitting a spectrum gives consecutive pieces whose data concatenate to the original with each tick label kept, exactly once, at the same data point.",
 ['inputs'],"every spectrum (point or bin-edge axes, any unit), factor and split",
 "Tests check a few arrays.",
 ['euphonic/spectra.py'],[('edges and centres','Spectrum._bin_edges_to_centres, _bin_centres_to_edges, get_bin_*'),('splitting','Spectrum._split_by_indices, _ranges_from_indices, _cut_x_ticks, _split_by_tol'),('scaling, copying and adding','Spectrum.__mul__, copy, __add__')])
p('C15','Spectrum collections keep every line with its own data and metadata',
 "Building a collection from spectra and indexing it back gives the original spectra, each with its own data, unit and metadata. Summing gives the sum over lines in the display unit, grouping partitions the lines by key and sums each group so that group totals add up to the overall total, and selecting returns exactly the lines whose metadata match. Metadata shared by all lines is reported as common and the rest stays attached to the right line.",
 ['inputs','histories'],"every collection (any size, metadata and display unit) and sequence of operations",
 "Tests use a few hand-written collections.",
 ['euphonic/spectra.py'],[('construction','Spectrum1DCollection.from_spectra, Spectrum2DCollection.from_spectra'),('indexing, sum, group_by, select, metadata','SpectrumCollectionMixin')])
p('C16','Kinematic constraints blank exactly the unreachable bins',
 "For fixed incident or final energy and any detector angle range, a bin of an S(|Q|,w) map is blanked if and only if no scattering angle in the range reaches any |Q| in the bin at that bin's energy transfer by Q^2 = ki^2 + kf^2 - 2 ki kf cos(angle), or the transfer is energetically impossible. All other values, and the input spectrum, are unchanged.",
 ['inputs'],"every map, energy and angle range (negative, reversed or beyond a full turn)",
 "Tests compare a few cases with stored masks.",
 ['euphonic/spectra.py'],[('mask','apply_kinematic_constraints'),('range of the cosine','_get_cos_range')])
p('C17','Broadening is linear, keeps units and shares out each weight exactly',
 "Broadening a spectrum is linear in its values, keeps the axis, metadata and units, and uses a kernel width in the same physical units as the axis whatever the display unit. Width-dependent broadening splits each point's weight between the two neighbouring kernels so that the parts add up to the weight, uses the width function's value at that point bounded below by the limit, and gives with a single kernel exactly fixed-width broadening. Point spectra with unequal spacing are refused or warned about as documented.",
 ['inputs','configurations'],"every spectrum, width, width function, shape, convention and error target",
 "Tests compare stored spectra for a few widths.",
 ['euphonic/broadening.py','euphonic/spectra.py'],[('variable width','broadening.variable_width_broadening, _width_interpolated_broadening'),('fixed width','Spectrum._broaden_data, _gfwhm_to_sigma, _distribution_1d')])
p('C18','Sampling schemes give the promised number of points in the promised domain',
 "Every spherical sampling scheme yields points at unit distance from the origin, the square schemes yield points of the unit square, and the number of points is the requested one or the documented rounding up of it, with or without jitter. Converting spherical to Cartesian output describes the same points, and powder sampling places every wavevector at the requested |q|.",
 ['inputs','configurations'],"every point count, scheme, jitter draw, crystal and |q|",
 "Tests use a few point counts with fixed random seeds.",
 ['euphonic/sampling.py','euphonic/powder.py'],[('generators','sampling.*'),('scheme selection','powder._get_qpts_sphere, _check_gridpts')])
p('C19','Band-path axes, labels and break points line up with the q-points',
 "The path coordinate starts at zero, never decreases, and increases between neighbouring q-points by the Cartesian length of the step, except across jumps by reciprocal-lattice vectors where it does not increase. Labels refer to existing q-points in increasing order and always include the first and last, zone centres, and corners of the path; duplicating zone-centre points for splitting keeps coordinates and labels aligned; and break points separate exactly the places where two different labelled points adjoin.",
 ['inputs'],"every q-point list, cell and labelled path",
 "Tests use stored paths for a few crystals.",
 ['euphonic/util.py','euphonic/cli/utils.py','euphonic/qpoint_frequencies.py'],[('coordinate','util._calc_abscissa'),('labels','util._recip_space_labels, get_qpoint_labels, direction_changed'),('band path preparation','cli.utils._insert_gamma, _get_break_points, _get_tick_labels')])
p('C20','Phonopy data converted to this convention describes the same crystal dynamics',
 "Force constants imported from Phonopy layout are rearranged so that the matrix between each primitive atom and each supercell atom is preserved under the cell offset relation, for full and compact input and any atom ordering, so that the dynamical matrix at commensurate q-points is the same up to a unitary phase; imported eigenvectors get exactly the phase relating the two conventions and keep their norms; imported weights are normalised to sum to one.",
 ['inputs'],"every supercell shape, atom ordering and force-constants layout",
 "Tests read a few stored calculations.",
 ['euphonic/util.py','euphonic/readers/phonopy.py'],[('force constants','util.convert_fc_phases, util._get_supercell_relative_idx'),('eigenvectors and weights','readers.phonopy.convert_eigenvector_phases, _convert_weights')])
p('C21','Mode gradients are the derivatives of the frequencies; widths follow from them',
 "The mode gradient of mode m at q is the expectation value of the Cartesian q-derivative of the mass-weighted dynamical matrix in that mode's eigenvector divided by twice its (signed) frequency - for a stable mode away from degeneracy, the derivative of the frequency with respect to the Cartesian wavevector - reported in the display units of energy times length. Mode widths are the gradient magnitudes times the grid spacing 2/(N_q V)^(1/3), whichever of the two accepted gradient layouts is given, and scale correctly with the units of both inputs.",
 ['inputs','configurations'],"every force-constants object, q-point, gradient layout and unit",
 "Tests compare stored gradients for a few materials.",
 [FC,'euphonic/util.py','c/dyn_mat.c'],[('gradient','ForceConstants._calculate_dyn_mat, _calculate_phonons_at_q, calculate_mode_gradients'),('widths','util.mode_gradients_to_widths')])
p('C22','Mode reordering only permutes modes, keeping each mode intact',
 "Reordering modes along a path permutes the modes at each q-point, moving each frequency together with its own eigenvector, leaves the first q-point as it was, and changes neither the set of frequencies at any q-point nor q-points, weights or units. Modes at consecutive points are matched by largest eigenvector overlap, and the ordering is carried on unchanged across direction changes.",
 ['inputs'],"every set of modes and q-points",
 "Tests compare stored reorderings of a few files.",
 ['euphonic/qpoint_phonon_modes.py'],[('reordering','QpointPhononModes.reorder_frequencies')])
p('C23','Inconsistent data are rejected at construction',
 "Every data object can only be constructed from arrays of the documented types whose shapes agree with one another (atoms, q-points, branches, cells, spectrum lengths as points or edges, one metadata entry per line); anything else raises an error and nothing consistent is refused. A calculation given weights of the wrong length is refused likewise.",
 ['inputs'],"every combination of argument types and shapes",
 "Tests try a handful of wrong arguments per class.",
 ['euphonic/validate.py','euphonic/crystal.py',FC,'euphonic/qpoint_frequencies.py','euphonic/qpoint_phonon_modes.py','euphonic/structure_factor.py','euphonic/debye_waller.py','euphonic/spectra.py'],[('shape and type check','validate._check_constructor_inputs, _replace_dim'),('constructors','__init__ of every class')])
p('C24','Reading phonon files keeps every q-point, weight and mode with its data',
 "Reading a CASTEP or Phonopy phonon file gives, for each block in the file in order, that block's q-point, frequencies and eigenvectors in the units requested. When a zone-centre point is written several times for LO-TO splitting, its total weight is kept: shared equally between the blocks, or given entirely to the unsplit block when that is preferred.",
 ['inputs'],"every well-formed file: any numbers of atoms, q-points and repeated blocks",
 "Tests read a few stored files.",
 ['euphonic/readers/castep.py','euphonic/readers/phonopy.py'],[('CASTEP .phonon','readers.castep.read_phonon_data, _read_frequency_block'),('Phonopy','readers.phonopy.read_phonon_data')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
