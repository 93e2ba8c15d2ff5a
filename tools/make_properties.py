import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
C='cppcore/src/'; H='cppcore/include/'
p('P01','Foundation sites: one index per (cell, sublattice), exact positions',
 'The foundation that a system is carved from holds every (unit cell, sublattice) pair of its bounding box exactly once; looking a site up by cell coordinates and sublattice, iterating over all sites, and iterating over a spatial or sublattice slice all agree on the same flat index, and slices visit exactly the sites they name. The position of a site is the lattice origin plus the integer combination of lattice vectors for its cell plus its sublattice offset.',
 ['inputs'],'every lattice (dimension 1-3, any number of sublattices), every bounding box size, every site and every slice range of it',
 'Tests look at a few hand-picked lattices and sizes; an index or stride error can be invisible for equal sizes or one sublattice.',
 [H+'system/Foundation.hpp',C+'system/Foundation.cpp'],
 [('Site::get_flat_idx / advance / shifted, iterators, slices',H+'system/Foundation.hpp'),('generate_positions, init bounds',C+'system/Foundation.cpp')],
 ['Foundation iteration, Foundation::get_positions','System::positions'])
p('P02','Final system contains exactly the surviving foundation sites, in order',
 'After construction the system contains exactly the foundation sites that are still valid, each once, in foundation order, numbered consecutively from zero, each with the position (plus any generated sites) and sublattice it had in the foundation. The number of sites reported by counting, the length of the coordinate arrays and the sublattice totals always agree.',
 ['inputs','programs'],'every lattice, shape, symmetry and sequence of site/position modifiers',
 'Tests compare a handful of fixed models with stored results; they cannot cover every pattern of removed sites.',
 [C+'system/System.cpp',C+'system/Foundation.cpp',H+'system/Foundation.hpp'],
 [('FinalizedIndices: valid sites numbered consecutively, -1 otherwise',C+'system/Foundation.cpp'),('detail::populate_system',C+'system/System.cpp')],
 ['System::num_sites, System::positions, System::compressed_sublattices'])
p('P03','Under-connected sites are removed to a fixpoint, and no others',
 'When sites are removed because they have fewer neighbours than the required minimum, removal cascades until it stabilises: a site disappears only if it was already invalid or has fewer valid neighbours than the minimum after the removals, and no surviving site that lost a neighbour has fewer valid neighbours than the minimum. The per-site neighbour counts used for this equal the true number of valid neighbours inside the box.',
 ['inputs'],'every lattice, box size, initial validity mask and minimum-neighbour threshold',
 'Cascading removal depends on arbitrary geometry; tests use two shapes.',
 [C+'system/Foundation.cpp',C+'system/StructureModifiers.cpp'],
 [('count_neighbors, clear_neighbors, remove_dangling',C+'system/Foundation.cpp')],['Foundation::get_states'])
p('P04','Every lattice hopping between surviving sites appears exactly once',
 'For every pair of surviving sites connected by a hopping of the lattice the finished system contains that hopping exactly once, in its forward direction and under its own family, and contains no other hopping. With translational symmetry (periods that fit the built box, hoppings reaching at most one unit cell along a periodic direction), the hoppings that leave through a periodic face appear exactly once in the boundary of the corresponding direction, attached to the equivalent site inside the cell and with the matching shift vector.',
 ['inputs','configurations'],'every lattice, validity mask, box size and choice of periodic directions and lengths',
 'The number of bonds is quadratic in geometry choices; tests count totals for a few models.',
 [C+'system/System.cpp',C+'system/Symmetry.cpp',H+'system/Symmetry.hpp',H+'system/Foundation.hpp'],
 [('populate_system / populate_boundaries',C+'system/System.cpp'),('Site::for_each_neighbor / for_each_shifted_neighbor',H+'system/Foundation.hpp'),('TranslationalSymmetry::translations, SymmetryArea',C+'system/Symmetry.cpp')],
 ['System::hopping_blocks','System::boundaries'])
p('P05','Compressed sublattice list is a faithful run-length encoding',
 'The compressed sublattice list always decodes to the exact sequence of sublattices that was encoded: appending sites extends the last run or opens a new one, filtering by a keep-mask gives the same result as filtering the decoded list, and the run totals equal the number of sites. Looking up where the sites with a given number of orbitals start returns the first such run, and the list is rejected if totals disagree, a sublattice occurs in two runs or orbital counts are not sorted.',
 ['inputs','histories'],'every sequence of appended runs and every keep-mask',
 'Tests check one two-run example.',
 [C+'system/CompressedSublattices.cpp',H+'system/CompressedSublattices.hpp'],
 [('add, filter, decompressed, start_index, verify',C+'system/CompressedSublattices.cpp')],['CompressedSublattices accessors'])
p('P06','Site numbers map one-to-one onto Hamiltonian rows, with no gaps or overlap',
 'Each site owns a block of consecutive Hamiltonian indices as long as its number of orbitals; blocks follow site order, never overlap, and together cover 0..size-1, and mapping any list of sites to indices, computing the matrix size, sublattice ranges, expanded positions and predicted number of non-zeros all follow this one layout. Searching for the nearest site returns a site (of the requested sublattice if given) with no closer alternative. Site numbers outside the system, unknown sublattice names, and searches where there is no site to find are rejected with an error.',
 ['inputs'],'every system: any sequence of sublattice runs with any orbital counts, any site and any query position',
 'Tests cover at most two orbital counts and few sites.',
 [C+'system/System.cpp',H+'system/System.hpp'],
 [('hamiltonian_size, to_hamiltonian_indices, sublattice_range, expanded_positions, find_nearest, hamiltonian_nnz',C+'system/System.cpp')],
 ['System public queries'])
p('P07','Hopping container keeps, counts, filters and exports exact bonds',
 'A bond added to the hopping container is stored as given in its own family; appending a list of bonds stores each of them once in that family, written from the lower to the higher site and with duplicates merged, and a list of unequal lengths or one that names a site that does not exist is rejected without effect. Iteration, total and neighbour counts, the serialized form (and a container rebuilt from it) and the sparse-matrix export all describe exactly the stored bonds and families. Filtering by a keep-mask retains exactly the bonds whose two ends are both kept, in order, renumbered to the compacted site numbering.',
 ['inputs','histories'],'every sequence of add/append/filter calls on any number of sites and families',
 'Tests check a few bonds; filtering is only exercised through large models.',
 [C+'system/HoppingBlocks.cpp',H+'system/HoppingBlocks.hpp'],
 [('add, append, filter, count_neighbors, nnz, tocsr, serialized form',C+'system/HoppingBlocks.cpp')],['HoppingBlocks public interface'])
p('P08','The Hamiltonian is Hermitian and its elements are exactly the model\'s terms',
 'The matrix is Hermitian for every model and every wave vector (for Hermitian onsite terms); its diagonal blocks are the (modified) onsite terms, and the block of each bond is the (modified) hopping term of its family, with the conjugate transpose in the mirrored place. Periodic bonds enter multiplied by the phase exp(i k.d) of their own shift vector d, and their mirror with the conjugate phase; nothing else is non-zero.',
 ['inputs','configurations'],'every lattice (any mix of orbital counts), site set, bond set, periodicity, modifier result and wave vector, for every scalar type',
 'Tests check stored matrices for few models and k-points.',
 [H+'hamiltonian/Hamiltonian.hpp',C+'hamiltonian/Hamiltonian.cpp',H+'hamiltonian/HamiltonianModifiers.hpp'],
 [('build_main, build_periodic, set',H+'hamiltonian/Hamiltonian.hpp')],['Model::hamiltonian'])
p('P09','Onsite and hopping modifiers see every element once, with matching metadata',
 'Energy modifiers are applied to every site orbital and every bond exactly once, in the order they were added, with the position and sublattice (or the two end positions and family) of the very element being modified, independently of how the work is cut into chunks. A matrix element is left out only if its modified value is exactly zero, and a modifier declared to return complex or double precision values promotes the model to that scalar type.',
 ['inputs','programs'],'every system size, every sequence of modifiers, every chunk size',
 'Chunking only happens for systems larger than 100000 elements, which no test reaches.',
 [H+'hamiltonian/HamiltonianModifiers.hpp',C+'hamiltonian/HamiltonianModifiers.cpp',C+'Model.cpp'],
 [('apply_to_onsite, apply_to_hoppings, HamiltonianModifiers::add',H+'hamiltonian/HamiltonianModifiers.hpp')],['modifier callbacks','Model::hamiltonian'])
p('P10','Structure modifiers act in order on consistent data',
 'Site-state modifiers, position modifiers, site generators and hopping generators are applied in the order they were added; a state modifier sees the states, positions and sublattice of exactly the sites it decides about, a generated site becomes one extra site with its own sublattice, and a generated hopping list adds exactly the bonds it names (stored from the lower to the higher site index). Existing sites and bonds are unaffected by generators, and a generated hopping list with unequal lengths, out-of-range site indices or a mismatched number of orbitals is rejected instead of corrupting the system.',
 ['inputs','programs'],'every ordered list of structure modifiers with arbitrary results',
 'Tests use one modifier of each kind with a fixed callback.',
 [C+'system/StructureModifiers.cpp',H+'system/StructureModifiers.hpp',C+'system/System.cpp',C+'Model.cpp'],
 [('apply(SiteStateModifier/PositionModifier/SiteGenerator/HoppingGenerator)',C+'system/StructureModifiers.cpp')],['System after Model::eval'])
p('P11','The lattice accepts exactly valid definitions and answers queries truthfully',
 'Adding a sublattice, alias, hopping family or hopping either succeeds and is exactly what later queries, optimised unit cell and registries report, or throws and leaves the lattice as it was; duplicate names, unknown names, zero-length self hoppings, mismatched term shapes, non-Hermitian onsite terms and duplicate bonds are always rejected. Every hopping is known from both of its ends: from its source with the given relative cell, and from its target with the opposite one, marked as conjugate.',
 ['inputs','histories'],'every sequence of builder calls on lattices of one to three dimensions',
 'Tests try a few invalid calls; they do not check that a failed call leaves no trace or sequences of aliases.',
 [C+'Lattice.cpp',H+'Lattice.hpp'],
 [('add_sublattice, add_alias, register_hopping_energy, add_hopping, optimized_unit_cell',C+'Lattice.cpp')],['Lattice accessors'])
p('P12','Name registry: names and numeric ids are one-to-one',
 'Every registered site or hopping family has one numeric id and one unique name; looking up the name gives the id, looking up the id gives the name and energy back, and ids already handed out never change meaning when more families are registered. Unknown or out-of-range names and ids are rejected, and a rejected registration changes nothing.',
 ['inputs','histories'],'every sequence of registrations and lookups, including invalid ones',
 'Tests look up two names.',
 [C+'system/Registry.cpp',H+'system/Registry.hpp',C+'Lattice.cpp'],
 [('Registry::register_family, name, id, energy',C+'system/Registry.cpp'),('Lattice::site_registry, hopping_registry',C+'Lattice.cpp')],['Registry public interface'])
p('P13','A model always answers for its current definition',
 'Whatever sequence of additions, symmetry, wave-vector changes and queries is made, the system and Hamiltonian returned by a model are those of its current definition: the same as for a fresh model given the same parts. A rejected addition leaves the model as it was.',
 ['histories'],'every interleaving of additions, wave-vector changes and queries',
 'Tests build a model once and query it; stale results need an add after a query.',
 [C+'Model.cpp',H+'Model.hpp'],
 [('Model::add overloads, set_wave_vector, system, hamiltonian, eval',C+'Model.cpp')],['Model::system, Model::hamiltonian'])
p('P14','Leads attach only to real sites and describe a regular periodic wire',
 'A lead is periodic along the direction it was attached in, its unit-cell matrix is Hermitian, and the lead-to-system index list names distinct existing system sites that are the ones at the junction, one for each lead site. Attaching fails with an error when the lead cannot touch the system. (For lead shapes whose box overlaps the system in the directions across the lead.)',
 ['inputs','configurations'],'every lattice, shape, direction, sign and padding',
 'Tests attach leads on one rectangle.',
 [C+'leads/Leads.cpp',C+'leads/Spec.cpp',C+'leads/Structure.cpp',H+'leads/HamiltonianPair.hpp',H+'leads/Structure.hpp'],
 [('create_attached, make_structure, fill_lead',C+'leads/')],['Model::lead(i)'])
p('P15','Shapes keep exactly the points of the region they describe',
 'A line keeps exactly the points whose projection lies between its two ends (for any point other than the ends themselves), a polygon keeps the points inside its outline for any vertex order and position, and a free-form shape keeps exactly what its function says. The foundation built for a shape spans the shape, so that no site whose offset from its unit cell stays within one cell is lost. The result for a point does not depend on the other points.',
 ['inputs'],'every polygon or line geometry and every point',
 'Tests check one or two figures at a few points.',
 [C+'system/Shape.cpp',H+'system/Shape.hpp',H+'detail/algorithm.hpp',C+'system/Foundation.cpp'],
 [('Line, Polygon, FreeformShape contains; Foundation find_bounds',C+'system/Shape.cpp')],['Shape::contains','Foundation bounds'])
p('P16','Sparse-matrix traversal and CSR/ELLPACK conversion preserve the matrix',
 'Walking a sparse matrix row by row, or from a starting row over a range, visits each stored element once with its own row, column and value; converting a CSR matrix to ELLPACK form preserves every element and pads only with zeros, so both forms give the same product with any vector, including the fused multiply-and-add and its dot products and their restriction to row ranges.',
 ['inputs'],'every sparse matrix (including empty rows) and every vector and row range',
 'Tests use a few fixed matrices.',
 [H+'numeric/sparse.hpp',H+'numeric/sparseref.hpp',H+'numeric/ellmatrix.hpp',H+'compute/kernel_polynomial.hpp'],
 [('SparseLoop/row iteration',H+'numeric/sparse.hpp'),('csr_to_ell',H+'numeric/ellmatrix.hpp')],['results of conversions'])
p('P17','KPM reordering is a permutation and its shortcuts never lose elements',
 'The KPM-optimised Hamiltonian is the scaled matrix with rows and columns reordered by a permutation, source and destination indices are carried through the same permutation, and the number of rows used at each moment is large enough that every element reachable from the source or needed by the destination is included. Optimised and plain matrices therefore give the same moments.',
 ['inputs','configurations'],'every square sparse matrix, source/destination index lists and moment counts',
 'Tests check two lattices at fixed sizes.',
 [C+'kpm/OptimizedHamiltonian.cpp',H+'kpm/OptimizedHamiltonian.hpp'],
 [('OptimizedHamiltonian::create_reordered, SliceMap',C+'kpm/OptimizedHamiltonian.cpp')],['OptimizedHamiltonian'])
p('P18','KPM scaling, kernels and request validation are exact',
 'Energy scaling maps the spectral bounds into the open interval (-1, 1) and is undone exactly; the damping kernels follow their formulas with first coefficient one, and the number of moments is rounded up to the required multiple without ever going below the request. Requests with indices outside the Hamiltonian or unknown directions are rejected with an error before any computation.',
 ['inputs'],'every spectral bound, broadening, moment count and requested index',
 'Tests check few values and no boundary index.',
 [H+'kpm/Bounds.hpp',C+'kpm/Kernel.cpp',H+'kpm/Kernel.hpp',C+'KPM.cpp',H+'KPM.hpp'],
 [('Scale, Kernel, KPM::calc_* argument checks',C+'KPM.cpp')],['KPM public interface'])
p('P19','Range, slice and container helpers cover every element exactly once',
 'Cutting a container into slices of a given positive size produces consecutive, non-overlapping, non-empty slices that together cover every element exactly once, all of the given size except possibly the last. Concatenating, filtering by a keep-mask, transforming, making an integer range, resizing with conservation and viewing a head or segment present exactly the underlying elements in order, with the length that follows, and writing through a mutable view changes exactly the viewed elements. A slice index reports the number of elements it selects (zero if it is empty) and moving it moves both ends; array references carry the dimensions and shape of the array they refer to. Numbers and durations are formatted to the documented number of digits in the unit they are printed with.',
 ['inputs'],'every container length, slice size and range',
 'Tests cover one or two lengths; the off-by-one cases are at the edges.',
 [H+'detail/algorithm.hpp',H+'detail/slice.hpp',H+'detail/sugar.hpp',H+'numeric/dense.hpp',H+'numeric/arrayref.hpp',H+'support/format.hpp',C+'utils/Chrono.cpp'],
 [('Sliced',H+'detail/algorithm.hpp'),('SliceIndex',H+'detail/slice.hpp'),('slice, concat, make_integer_range, CartesianArray',H+'numeric/dense.hpp'),('arrayref',H+'numeric/arrayref.hpp'),('with_suffix',H+'support/format.hpp'),('Chrono::str',C+'utils/Chrono.cpp')],['helper results'])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
import os
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    for f in x['anchors']['files']:
        if not os.path.exists('/repo/'+f): print(x['id'],'missing',f)
