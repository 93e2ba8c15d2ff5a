"""Which contracts and which replay harness decide each property."""

MODEL = ['Model.cpp', 'Lattice.cpp', 'hamiltonian/Hamiltonian.cpp', 'hamiltonian/HamiltonianModifiers.cpp', 'leads/Leads.cpp', 'leads/Spec.cpp',
         'leads/Structure.cpp', 'system/CompressedSublattices.cpp', 'system/Foundation.cpp', 'system/HoppingBlocks.cpp', 'system/Registry.cpp',
         'system/Shape.cpp', 'system/StructureModifiers.cpp', 'system/Symmetry.cpp', 'system/System.cpp', 'utils/Chrono.cpp']

KPM = ['KPM.cpp', 'kpm/Bounds.cpp', 'kpm/Core.cpp', 'kpm/Kernel.cpp', 'kpm/Moments.cpp', 'kpm/OptimizedHamiltonian.cpp', 'kpm/Starter.cpp', 'kpm/Stats.cpp',
       'kpm/default/Compute.cpp', 'kpm/default/collectors.cpp']

PROPS = {
    'P01': dict(
        level='proof',
        specs=[('tu/TheFoundation.cpp', ['foundation'], ['Site::', 'Foundation::size', 'Iterator<', 'SpatialSlice', 'generate_positions'])],
        native='native/p01.cpp', sources=MODEL,
        note='Site indexing, positions, iteration and slices under contract.',
    ),
    'P02': dict(
        level='other',
        specs=[('tu/TheFoundation.cpp', ['foundation'], ['get_finalized_indices'])],
        native='native/p02.cpp', sources=MODEL,
        note='Partly proved: the finalized numbering under contract; the contents of the system are compared with an oracle natively only (bounded).',
    ),
    'P03': dict(
        level='other',
        specs=[('tu/TheFoundation.cpp', ['foundation'], ['count_neighbors'])],
        native='native/p03.cpp', sources=MODEL,
        note='Partly proved: neighbour counts under contract; the repeated removal is compared with an oracle natively only (bounded).',
    ),
    'P04': dict(
        level='other',
        specs=[('tu/TheSymmetry.cpp', ['symmetry', 'hopping_blocks', 'sublattices', 'registry'], ['SymmetryArea::contains', 'TranslationalSymmetry'])],
        native='native/p02.cpp', sources=MODEL, flags=['-DP04'],
        note='Partly proved: the symmetry area and its application are under contract; the transfer of bonds into the system (populate_system), populate_boundaries and translations are compared with an independent oracle natively only (bounded).',
    ),
    'P05': dict(
        level='proof',
        specs=[('tu/CompressedSublattices.cpp', ['sublattices'], None)],
        native='native/p05.cpp', sources=['system/CompressedSublattices.cpp'],
        note='All functions of CompressedSublattices under contract; the constructor and iterator are inlined into them.',
    ),
    'P06': dict(
        level='proof',
        specs=[('tu/System.cpp', ['system', 'registry', 'hopping_blocks', 'sublattices'], ['System::'])],
        native='native/p06.cpp', sources=['system/System.cpp', 'system/CompressedSublattices.cpp', 'system/HoppingBlocks.cpp', 'system/Registry.cpp', 'system/Foundation.cpp', 'system/Symmetry.cpp', 'Lattice.cpp', 'system/Shape.cpp'],
        note='',
    ),
    'P07': dict(
        level='proof',
        specs=[('tu/HoppingBlocks.cpp', ['hopping_blocks'], None)],
        native='native/p07.cpp', sources=['system/HoppingBlocks.cpp'],
        note='HoppingBlocks operations under contract.',
    ),
    'P12': dict(
        level='proof',
        specs=[('tu/Registry.cpp', ['registry'], None)],
        native='native/p12.cpp', sources=MODEL,
        note='Both instantiations of Registry under contract.',
    ),
    'P19': dict(
        level='proof',
        specs=[('tu/Helpers.cpp', ['helpers'], None)],
        native='native/p19.cpp', sources=MODEL,
        note='slice, concat, make_integer_range, SliceIndex, CartesianArray views, arrayref and iteration over sliced() under contract (templates at the '
             'types the library uses); the number and duration formatters are covered by the bounded harness only.',
    ),
    'P08': dict(
        level='proof',
        specs=[('tu/Hamiltonian.cpp', ['hamiltonian', 'registry'], ['IndexTranslator::', 'HoppingBuffer', 'apply_to_hoppings_impl'])],
        native='native/p08.cpp', sources=MODEL,
        note='Placement and values of hopping terms under contract.',
    ),
    'P09': dict(
        level='proof',
        specs=[('tu/Hamiltonian.cpp', ['hamiltonian', 'registry'], ['apply_to_onsite'])],
        native='native/p09.cpp', sources=MODEL,
        note='Onsite terms under contract.',
    ),
    'P10': dict(
        level='proof',
        specs=[('tu/TheModifiers.cpp', ['modifiers', 'hopping_blocks', 'sublattices', 'registry', 'helpers_mod'], ['cpb::apply', 'remove_invalid']), ('tu/TheModel.cpp', ['model'], ['Model::make_system'])],
        native='native/p10.cpp', sources=MODEL,
        note='All six kinds of modifier application (states and positions on the foundation and on the finished system, generated sites, generated bonds) and the removal of invalid sites under contract; what the user functions return is arbitrary.',
    ),
    'P11': dict(
        level='proof',
        specs=[('tu/TheLattice.cpp', ['lattice'], ['Lattice::', 'OptimizedUnitCell', 'detail::'])],
        native='native/p11.cpp', sources=MODEL,
        note='Building, querying and exporting the lattice and its optimised unit cell under contract.',
    ),
    'P13': dict(
        level='proof',
        specs=[('tu/TheModel.cpp', ['model'], ['Model::', 'Leads::', 'HamiltonianModifiers::', 'Hamiltonian::'])],
        native='native/p13.cpp', sources=MODEL,
        note='Every public operation of Model under contract; the steps of the build pipeline (Foundation, populate_system, ham::make, attaching the leads, lead construction) are assumed to be deterministic functions of their arguments.',
    ),
    'P14': dict(
        level='other',
        specs=[('tu/TheLeads.cpp', ['leads'], ['leads::'])],
        native='native/p14.cpp', sources=MODEL,
        note='Partly proved: leads::Spec, Structure::lead_index and shape_slice under contract; create_attachment_area, attachment_slice, Junction, Structure and make_h1 are decided natively only (bounded).',
    ),
    'P15': dict(
        level='proof',
        specs=[('tu/TheShapes.cpp', ['shape', 'helpers'], ['Primitive::', 'WithinPolygon::', 'is_acute_angle', 'Shape::Shape', 'freeform_vertices', 'within_line']), ('tu/TheFoundation.cpp', ['foundation'], ['find_bounds'])],
        native='native/p15.cpp', sources=MODEL,
        note='Line, polygon and free-form shapes and the box of a shape under contract (single precision treated as exact reals).',
    ),
    'P16': dict(
        level='proof',
        specs=[('tu/TheSparse.cpp', ['sparse'], None)],
        native='native/p16.cpp', sources=[],
        note='Traversal, ELLPACK conversion and the fused products of one vector under contract (generic code path).',
    ),
    'P17': dict(
        level='proof',
        specs=[('tu/TheReorder.cpp', ['reorder'], None)], tmo=20,
        native='native/p17.cpp', sources=MODEL + KPM,
        note='The permutation, the elements of the scaled and reordered matrix, the nesting of slices and the slice needed at each moment under contract.',
    ),
    'P18': dict(
        level='proof',
        specs=[('tu/TheKpmRequests.cpp', ['kpm'], None)],
        native='native/p18.cpp', sources=MODEL + KPM,
        note='Energy scaling, kernels, number of moments and the checks of requests under contract.',
    ),
}

NOT_APPLICABLE = {}
