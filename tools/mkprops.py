"""Writes properties.jsonl (kept as code so that the list is easy to review)."""
import json, os
B, K, S, G, R, C, U, T = ("irrep/bandstructure.py", "irrep/kpoint.py", "irrep/spacegroup.py", "irrep/gvectors.py",
                          "irrep/readfiles.py", "irrep/cli.py", "irrep/utility.py", "irreptables/irreptables/__init__.py")
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=mech)
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


prop("C01", "The reported space group is exactly the crystal's symmetry group",
     "For any crystal structure, in any choice of cell and origin, the symmetry operations reported (in crystal coordinates, modulo lattice translations) are exactly the isometries that map the crystal onto itself with every atom going to an atom of the same species, each listed once. "
     "The reported space-group number is the type of that group.",
     ["inputs", "configurations"], "all crystals of the 230 space groups, all lattice bases (also non-primitive ones), orientations, origins, atom orders",
     "The tests contain a handful of crystals in one cell each; a wrong basis, a lost species or a dropped operation shows only for other cells and groups.",
     [S, R], ["SpaceGroup._findsym builds the list from the crystal handed over by the parsers"],
     ["spacegroup.symmetries[].rotation/.translation", "spacegroup.number", "spacegroup.order"])
prop("C02", "Axis, angle, inversion flag and spinor matrix describe the same operation",
     "For every reported symmetry operation the proper/improper flag is the sign of the determinant, the rotation about the reported Cartesian axis by the reported angle (times inversion if flagged) is the operation's rotation expressed in Cartesian coordinates, and the reported 2x2 spinor matrix is, up to a sign, the SU(2) matrix of that rotation. "
     "The angle and axis printed in the symmetry report are those values.",
     ["inputs", "configurations"], "every operation of every space group, in every lattice basis and orientation of the crystal",
     "Each test has one orientation and few axes; the sense of the rotation and the branch of the angle go wrong only for particular axes.",
     [S], ["SymmetryOperation._get_operation_type, get_angle_str and the spinor matrix exponential"],
     ["symmetries[].axis/.angle/.angle_str/.inversion/.spinor_rotation", "printed symmetry report"])
prop("C03", "The transformation to the reference cell maps the group onto the tables",
     "When the transformation to the conventional cell is searched for, the transformation matrix and origin shift reported map every symmetry operation (rotation and, modulo lattice translations, translation) onto the operation of the tables carrying the same index, and the matrix spans the conventional cell of the crystal's lattice. "
     "A transformation given by the user is used as given (a missing part being the identity matrix or zero shift); when it does not map the group onto the tables (translations within trans_thresh) it is refused if irreps are wanted, and kept with the operations in their original order otherwise.",
     ["inputs", "configurations"], "all 230 groups, all cells and origins, searched, correct, incomplete and wrong user-given transformations",
     "Tests use very few groups and origins; the search has several branches (library shift, centring, inversion centres) selected by group and origin.",
     [S, C], ["SpaceGroup.determine_basis_transf, match_symmetries, vecs_centering, vecs_inv_centers, the re-indexing in __init__"],
     ["spacegroup.refUC/.shiftUC", "symmetries[].ind and order", "RuntimeError raised"])
prop("C04", "Spinor signs make the spinor matrices match the double-group tables",
     "For spinor calculations of crystals matched to the tables, every operation gets a sign (+1 or -1) such that the signed spinor matrices are all simultaneously related by one change of spin basis to the spinor matrices of the tables. "
     "Without spin the signs are +1, and the signs do not depend on luck: the matching succeeds for every random start.",
     ["inputs", "configurations"], "all 230 double space groups, all orientations and cells, all seeds of the random start",
     "The matching is a random-start minimisation per group and orientation; one test group says nothing of others or of other seeds.",
     [S], ["SpaceGroup.__match_spinor_rotations"], ["symmetries[].sign/.spinor_rotation"])
prop("C05", "The irrep tables are complete, consistent representations and parse exactly",
     "For every space group, with and without spin, the table as read by the program equals the table file: operations, spinor matrices, k points with their little groups, irrep names, dimensions and characters. "
     "Its operations form the group; the little group listed at each k point is the full one; and the irreps there are irreducible, inequivalent and complete (orthonormal characters, squared dimensions adding to the order of the little group, the multiplication law of the little group with the program's translation phases). The line that the program writes for an operation, a k point or an irrep reads back as the same one; a file whose header names another group, or contradicts the request for spinors, is refused.",
     ["inputs"], "all 460 table files, all k points, all irreps, all pairs of operations",
     "Tests look up a few irreps of three groups; an altered character or a parser slip in any of the other tables is invisible.",
     [T, "irreptables/irreptables/tables/"], ["IrrepTable, KPoint, Irrep, SymopTable parsers and the data files"],
     ["IrrepTable(...).symmetries/.irreps"])
prop("C06", "The little group of a k point is exact and listed in table order",
     "At every k point, characters are given for exactly those symmetry operations that take the k point to itself modulo a reciprocal lattice vector, each once, in ascending order of their index. "
     "The k point in the reference cell is the k point of the calculation expressed in the reciprocal basis of the reference cell.",
     ["inputs", "configurations"], "all groups, all k points (high symmetry, on lines, generic, outside the first zone, negative), all cells",
     "The tests use a few high symmetry points, where transposing or inverting the rotation often changes nothing.",
     [K], ["Kpoint.__init__ little group selection and ordering, k_refUC"], ["kpoints[].little_group", "kpoints[].k/.k_refUC", "JSON 'symmetries'"])
prop("C07", "Each coefficient belongs to its plane wave, exactly those below the cutoff",
     "For each of the four DFT codes and each k point, the plane waves used are exactly those with kinetic energy |k+G|^2 below the cutoff in force (the calculation's, or the smaller one requested), each once, and each carries the coefficient the wave-function file stores for it (spin component by spin component). "
     "The wave functions used are normalised to one whatever the normalisation in the file.",
     ["inputs", "configurations"], "all lattices, k points, cutoffs, codes, spinor or scalar, any order in which a file may list plane waves",
     "A regression test has one lattice and one cutoff; a wrong order or a lost boundary plane wave cancels out in traces of nearly symmetric test cases.",
     [G, B, R], ["calc_gvectors (order of plane waves in WAVECAR, UNK grids)", "sortIG", "ParserVasp/Abinit/Espresso/W90.parse_kpoint"],
     ["kpoints[].ig", "kpoints[].WF"])
prop("C08", "Characters are the traces of the symmetry operations on the states",
     "For every energy level at every k point, the character reported for an operation {R|t} of the little group is the trace of that operation on the span of the level's states, with Bloch functions transformed in space (translation phases included) and in spin. "
     "The character for the reference cell is the same trace for the table's operation of the same index (its translation and spinor sign); where the two cells coincide it is the first character itself. Neither depends on the basis chosen within a degenerate level.",
     ["inputs", "configurations"], "all groups (symmorphic or not), k points, cells, origins, spin, codes, states",
     "Stored reference outputs cover few groups; wrong phases of fractional translations need a non-symmorphic group, a zone-boundary k point and a shifted origin together.",
     [G, K, B], ["symm_eigenvalues, transformed_g", "Kpoint.calculate_traces"], ["kpoints[].char", "kpoints[].char_refUC", "JSON characters"])
prop("C09", "Irreps and multiplicities are the decomposition of the level",
     "When k points are labelled, every energy level is assigned exactly the irreps of that k point's table which occur in the representation carried by its states, with their multiplicities; for complete levels these are positive integers whose dimensions add up to the degeneracy. "
     "A label that the tables do not contain, or one whose k point is not equivalent to the actual k point, is rejected.",
     ["inputs", "configurations"], "all groups and tabulated k points (all equivalent coordinates), with and without spin, any cell and origin, any states",
     "Tests identify irreps in three groups; labels depend on table order, phases, signs and complex conjugation that only other groups tell apart.",
     [S, K, B], ["SpaceGroup.get_irreps_from_table", "Kpoint.identify_irreps"], ["kpoints[].irreps", "irreps.dat", "RuntimeError raised"])
prop("C10", "Energy levels: grouping by degeneracy, averages and Fermi shift",
     "The bands of a k point are grouped into levels of consecutive bands, a new level beginning exactly where the energy rises by more than the degeneracy threshold; every level is given the mean of its energies and its number of states. "
     "All energies are in eV relative to the Fermi energy requested (a number, or 'auto' for the one found in the files), in every code and for the spin channel requested.",
     ["inputs", "configurations"], "all patterns of band energies, thresholds, Fermi energies, codes and spin channels",
     "Reference outputs contain one pattern per k point, with the default threshold and mostly zero Fermi energy.",
     [K, B, R], ["Kpoint borders/degeneracies/Energy_mean", "BandStructure Fermi energy", "energy parsers"],
     ["kpoints[].degeneracies/.Energy_mean/.Energy_raw/.upper", "efermi"])
prop("C11", "Requested bands and k points are exactly those delivered, in order",
     "A calculation restricted to a range of bands or to a list of k points (any order, repeated or out of range entries included) delivers exactly the data of those bands at those k points that exist in the file, in the order of the list: what is delivered for a k point does not depend on which others were requested before it. "
     "Requests outside the file are clipped to it, an empty band range is an error, and the caller's list is not altered.",
     ["inputs", "histories"], "all band ranges, all sequences of k-point requests, all codes, files whose k points have different numbers of plane waves",
     "Sequential file readers carry a position from one k point to the next; tests read all k points in order, or one prefix.",
     [B, R], ["BandStructure k loop and band slice", "ParserAbinit.parse_kpoint sequential reading", "ParserVasp.record"],
     ["kpoints[].ik0/.k/.Energy_raw/.WF/.char"], ["position in the WFK file"])
prop("C12", "Counts of inversion-odd states and the Z2, Z4 indices",
     "At every k point whose little group contains the inversion about the cell origin, the number of inversion-odd states is the number of states of the level set odd under it, and elsewhere no number is given. "
     "The totals over the k points, and the Z2 and Z4 indices (half the total modulo 2 and 4), printed and in the JSON output, follow from those counts; spinor calculations report Kramers pairs.",
     ["inputs", "configurations"], "all centrosymmetric and other groups, k points, origins (inversion centre at the origin or not), band ranges, spin",
     "The reference outputs have one centrosymmetric crystal with its inversion centre at the origin.",
     [K, B], ["Kpoint.num_bandinvs", "BandStructure.num_bandinvs, write_characters, json"], ["kpoints[].num_bandinvs", "printed totals", "JSON totals"])
prop("C13", "Direct and indirect gaps of the selected bands",
     "The gap at a k point is the energy of the first band above the selected ones minus the highest selected level; the smallest direct gap is the minimum of these over the k points and the indirect gap is the lowest band above minus the highest selected level over all k points. "
     "They may be negative, and if no band exists above the selection no gap is printed for the k point.",
     ["inputs", "configurations"], "all band energies, band selections and k-point lists",
     "Reference outputs have one selection; where the direct and the indirect gap come from the same k point mistakes cannot show.",
     [B, K], ["BandStructure.gap_direct, gap_indirect, upper"], ["gap_direct", "gap_indirect", "printed gaps", "JSON gaps"])
prop("C14", "All DFT interfaces give the same results for the same physical states",
     "The same crystal, k points and Bloch states stored in the formats of VASP, Abinit, Quantum Espresso and Wannier90 yield the same lattice, symmetry operations, cutoff selection, energies, degeneracies, characters, irreps, indices and gaps. "
     "It does not matter in which order a file lists plane waves, nor which supported version or file-name variant is used.",
     ["inputs", "configurations"], "all states, cells, spinor or scalar, orders of plane waves, file versions",
     "Each code's tests use different materials, so unit or convention differences between interfaces are never compared.",
     [R, B, G], ["ParserVasp, ParserAbinit, ParserEspresso, ParserW90 and unit conversions"], ["all attributes of the band structure"])
prop("C15", "Equivalent spellings of structure files describe the same crystal",
     "Every allowed way to write a crystal in a POSCAR (scale factor, Cartesian or direct positions, with or without species names, selective dynamics, trailing blocks) or a Wannier90 .win file (Angstrom or Bohr, fractional or Cartesian atoms, order of blocks, '=' ':' or blank separators, comments, letter case) is read as that crystal, with the same cell, positions and species. "
     "A file with a malformed or missing mandatory block is reported as an error.",
     ["inputs", "configurations"], "all combinations of the optional features of the two text formats",
     "The repository's examples use one spelling each; combinations of options are never read.",
     [R, U], ["ParserVasp.parse_poscar", "ParserW90.parse_header/parse_lattice", "split, str2bool"], ["spacegroup.Lattice/.positions/.typat", "kpoints", "errors"])
prop("C16", "Unsupported or inconsistent input is refused, never silently misread",
     "Input that contradicts itself or that is not supported is refused with an error before any result is written: different lattices in the structure and wave-function files, wrong spinor setting, unknown code or file version, spin-polarised or reduced (istwfk) Abinit files, Gamma-only Quantum Espresso files, double-precision or spin-polarised WAVECARs, missing or superfluous spin channel, missing cutoff, a Fermi energy that is no number, an empty band range, unknown k-point labels. "
     "Input that differs from such a case only in being valid is accepted.",
     ["inputs", "configurations"], "all single deviations from a valid input, for each code",
     "Tests run valid input only.",
     [B, R, C, S], ["the checks in BandStructure.__init__ and the parsers"], ["exception raised", "absence of output files"])
prop("C17", "All output files tell the same story as the computed data",
     "For any run, the printed report, trace.txt, irreps.dat, irreptable-template and irrep-output.json describe the same k points, levels, energies, degeneracies, operations, characters, irreps and labels as the computed band structure, in the same order and within the printed precision. "
     "In particular trace.txt lists every operation of the group and, for each k point, its little group by the same indices; the number of levels written is the number of levels computed whether or not k points are labelled.",
     ["inputs", "configurations"], "all crystals, band structures and option combinations",
     "Stored reference files fix some numbers for some runs, not the agreement among files for every run.",
     [B, K, S, C], ["write_characters, write_trace, write_irrepsfile, json, str, show"], ["the files and standard output"])
prop("C18", "Symmetry files are written faithfully and can be read back",
     "The symmetry file written for a crystal lists each operation once as the Cartesian rotation and translation (in units of the lattice parameter, with the sign convention of the format) of the crystal's operation. "
     "Reading it back, with operations in any order and any lattice parameter given consistently, reproduces exactly the operations written, and the calculation that uses them gives the same characters and irreps.",
     ["inputs", "configurations"], "all groups, cells, orientations, lattice parameters and orders of operations",
     "One test group, symmorphic, hides signs and units of translations.",
     [S, B, C], ["SymmetryOperation.str_sym, write_sym_file, read_sym_file, cart_to_crystal"], ["the file", "symmetries after reading"])
prop("C19", "Separation by symmetry eigenvalues splits the states correctly",
     "Separating a band structure by a symmetry operation distributes the states of each level over subspaces such that every state of a subspace is an eigenstate of the operation with the eigenvalue of the subspace (its real part when Kramers pairs are kept together), and nothing is lost: the numbers of states per level and eigenvalue are those of the operation's spectrum on the level. "
     "States keep the energy, characters and irreps of the level they come from, and separating by several operations one after the other refines the separation; the printed output and the JSON file say the same of every subspace.",
     ["inputs", "histories", "configurations"], "all groups, operations, k points, spin, grouped and ungrouped, sequences of operations",
     "One test separates one crystal by one threefold rotation.",
     [K, B, G, C], ["Kpoint.Separate, copy_sub, BandStructure.Separate, symm_matrix"], ["keys and kpoints of the subspaces", "JSON 'symmetry eigenvalues'"])
prop("C20", "Zak phases and Wannier charge centres are gauge invariant Wilson-loop phases",
     "Along a closed path of k points the Zak phase of the first n bands is the phase of the product of overlap determinants of neighbouring k points (the last neighbouring the first, displaced by a reciprocal lattice vector where needed), and the charge centres are the phases of the eigenvalues of the product of overlap matrices made unitary. "
     "Neither depends on the phases of the states, and the sum of the centres is the Zak phase of all bands modulo one. With each phase come the gap above band n (smallest energy of band n+1 minus largest energy of band n along the path), the middle of that gap and the smallest direct gap.",
     ["inputs", "configurations"], "all closed k paths (through the zone or around a point), numbers of bands, gauges, scalar and spinor states, all bands or those of one eigenvalue of a symmetry operation",
     "No test runs these at all.",
     [B, K], ["BandStructure.zakphase, wcc", "Kpoint.overlap"], ["returned values"])
prop("C21", "Unfolding weights are the projections on the primitive-cell k point",
     "Unfolding a supercell k point onto a k point of the primitive zone gives, for each level, the sum of squared coefficients of the plane waves that belong to the primitive k point (and the spin components of that projection), with the level's energy. "
     "Over all primitive k points that fold onto the supercell k point the weights add up to the number of states; a primitive k point that does not fold onto it is refused.",
     ["inputs", "configurations"], "all integer supercell matrices (not only diagonal), k points, states, scalar and spinor",
     "No test runs unfolding.",
     [K], ["Kpoint.unfold, get_rho_spin, k_close_mod1"], ["returned arrays", "RuntimeError"])
prop("C22", "The k-path coordinate and the band-plot file",
     "The path coordinate starts at zero and grows by the Cartesian distance between successive k points, except that jumps longer than the break threshold add nothing; with a supercell the distance is that of the folded points. "
     "The band-plot file has one block per band with one line per k point, carrying that coordinate and the energy of the band's level, in ascending band order.",
     ["inputs", "configurations"], "all paths, lattices, thresholds and band structures",
     "No test reads the plot file or the path coordinate beyond one stored value list.",
     [B], ["BandStructure.KPOINTSline, write_plotfile"], ["KPOINTSline()", "bands-*.dat", "JSON 'kp in line'"])
prop("C23", "Command line, configuration file and library call are the same calculation",
     "An option means the same whether given on the command line or in a JSON or YAML configuration file, where both give a value the file counts, and the run equals the library call with those arguments (bands, k points, labels, cell transformation, thresholds, Fermi energy, cutoff, symmetry file, spin). "
     "Lists of indices with ranges ('1,3-5,7') expand to exactly those indices in that order.",
     ["inputs", "configurations"], "all options, single and combined, in each of the two places; all lists of numbers and ranges",
     "Tests run a few fixed command lines; an option dropped on its way to the calculation leaves them green.",
     [C, U, B], ["cli(), load_config callback, str2list"], ["output files of the command", "attributes of the library call"])
prop("C24", "Matrices between states: symmetries, spin, overlaps, means over the cell",
     "For given states the matrix of a symmetry operation that keeps the k point has the elements < m | {R|t} | n > (its diagonal is what the traces add up, each plane wave goes to the one it is rotated to), and an operation that does not keep the k point is refused. "
     "Spin matrices are < m | sigma | n > for each group of states closer than the threshold with their mean energy, overlaps are those of the cell-periodic parts, the localisation is the mean of the given function over the state, and k points are equal exactly when they differ by a reciprocal vector within the precision.",
     ["inputs", "configurations"], "all groups, operations, k points, states, scalar and spinor, thresholds and functions",
     "No test calls these functions directly; signs, conjugations, wrong group borders and lost boundary cases stay unseen.",
     [K, "irrep/gvectors.py"], ["symm_matrix, symm_eigenvalues, transformed_g", "Kpoint.get_rho_spin, overlap, getloc, k_close_mod1, NG"], ["returned arrays", "NotSymmetryError"])
prop("C25", "Results do not depend on what was done before",
     "Whatever methods of a calculation have been called before, in whatever order and how often, and whatever other calculations the process has made, a method delivers what it delivers for a new calculation of the same input: only the last identification of irreps counts, and only for what tells the irreps. "
     "Subspaces keep the irreps their calculation had when it was separated, and no call alters arguments it was given.",
     ["histories"], "all histories of calls on a calculation, its subspaces, and other calculations in the same process",
     "Every test makes one calculation per process and asks each thing once.",
     [B, K, G, C], ["methods of BandStructure, Kpoint and SpaceGroup", "lru_cache of get_rho_spin, copies made by Separate"], ["what is returned, printed and written"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
