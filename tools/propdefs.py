"""The single table of properties: generates properties.jsonl and MANIFEST.json
(python3 tools/propdefs.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/neso_particles/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None,
         note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe))


prop("C01", "Moving particles between ranks loses, duplicates and alters nothing",
     "Whatever combination of global, local, hybrid and cell moves is applied, on any number of ranks, "
     "the multiset of particles over all ranks stays the same: each particle exists exactly once. "
     "Every property component a particle carries arrives bit for bit, including properties added or removed between moves.",
     ["histories", "configurations", "schedules"],
     "all sequences of moves, property writes, property additions/removals and particle creation/removal; all rank counts, "
     "mesh shapes, cell occupancies and destination patterns; all device schedules the runtime allows",
     "the tests run on one rank, where no particle is ever packed, sent or unpacked, and each with one fixed history",
     ["src/packing_unpacking.cpp", I + "packing_unpacking.hpp", I + "global_move.hpp", I + "global_move_exchange.hpp",
      I + "local_move.hpp", "src/departing_particle_identification.cpp", "src/particle_group.cpp",
      I + "cell_dat_compression.hpp", "src/cell_dat_move.cpp", "src/particle_group_pointer_map.cpp"],
     [("identify, pack, exchange counts, send, compress, unpack", I + "global_move.hpp"),
      ("one-sided count exchange and two buffer sets", I + "global_move_exchange.hpp")],
     observe=["ParticleGroup::hybrid_move", "ParticleGroup::global_move", "ParticleGroup::local_move"])

prop("C02", "After a move each particle is on the rank and in the cell it belongs to",
     "After a hybrid move every particle is on the rank that owns the mesh cell containing its position, and after the "
     "following cell move it is stored in exactly that cell with its cell property saying so. Global and local moves with "
     "requested ranks deliver each particle to the requested rank and leave unrequested particles where they were.",
     ["histories", "inputs", "configurations"],
     "all positions in the domain (including cell faces), mesh dimensions, subdivision orders, stencil widths and rank counts",
     "one-rank tests make every ownership question trivial; sampled positions never exercise stencil regions between ranks",
     ["src/global_mapping.cpp", "src/cartesian_mesh.cpp", "src/mesh_hierarchy.cpp", I + "cartesian_mesh.hpp",
      "src/cartesian_mesh/cartesian_h_mesh.cpp", "src/particle_group.cpp", "src/cell_dat_move.cpp"],
     [("global map to mesh hierarchy owner then local stencil map", "src/global_mapping.cpp"),
      ("cell binning", "src/cartesian_mesh.cpp")],
     observe=["ParticleGroup::hybrid_move", "ParticleGroup::cell_move"])

prop("C03", "Adding, removing and re-celling particles changes exactly what was asked",
     "Adding particles stores exactly the given particles in the given cells; removing by index lists, sub-group or flag removes exactly "
     "those; moving between cells changes only the cell; clearing empties the rank. All properties of a particle stay together, and every "
     "reported particle count (group, cell, property) equals the number of particles stored.",
     ["histories", "schedules"],
     "all sequences of add, remove, cell change, clear, property addition/removal; all cell occupancies including empty cells and growth of storage",
     "tests apply one or two operations to one fixed population and mostly check totals",
     ["src/particle_group.cpp", I + "particle_group.hpp", I + "cell_dat_compression.hpp", "src/cell_dat_move.cpp", I + "containers/cell_dat.hpp",
      I + "particle_dat.hpp", I + "particle_remover.hpp", "src/particle_set.cpp"],
     [("layer compression moves the last particles into the holes", I + "cell_dat_compression.hpp"),
      ("storage growth", I + "containers/cell_dat.hpp")],
     observe=["ParticleGroup::add_particles_local", "ParticleGroup::remove_particles", "ParticleGroup::cell_move"])

prop("C04", "A particle loop visits each particle of its iteration set exactly once",
     "A particle loop over a group, one cell, a range of cells or a sub-group applies its kernel exactly once to each particle of that set and to no other, "
     "with reads, writes and indices (cell, layer, linear index) referring to that particle; repeated execution sees the current particles. "
     "This does not depend on work-group sizes, block sizes, occupancies or device type.",
     ["inputs", "configurations", "schedules"],
     "all cell occupancies (empty, sparse, above a block), all cell ranges, loop size parameters, local memory needs and device kinds",
     "tests use near-uniform occupancies, default loop parameters and one device kind",
     ["src/loop/particle_loop_iteration_set.cpp", I + "loop/particle_loop.hpp", I + "loop/particle_loop_base.hpp", I + "loop/particle_loop_iteration_set.hpp",
      I + "loop/particle_loop_index.hpp", I + "particle_sub_group/particle_loop_sub_group.hpp", "src/loop/particle_loop_base.cpp"],
     [("iteration set blocks, strides and bounds masks", "src/loop/particle_loop_iteration_set.cpp")],
     observe=["particle_loop(...)->execute()"])

prop("C05", "Loop contributions to shared containers combine exactly",
     "Increments, minima, maxima and reductions that the particles of a loop make to arrays (local, global over ranks, multi-dimensional) and to per-cell "
     "containers equal the exact combination of all contributions with the value held before, each contribution counted once; reads see the values current when the loop starts. "
     "Host reads and writes of these containers are consistent with what loops do to them.",
     ["schedules", "inputs", "histories"],
     "all numbers of particles and contributions per entry, all loop kinds (whole group, sub-group, cell range), rank counts and device schedules",
     "one rank never combines over ranks, and tests use one loop shape per container",
     [I + "containers/local_array.hpp", I + "containers/global_array.hpp", I + "containers/nd_local_array.hpp", I + "containers/cell_dat_const.hpp",
      I + "containers/cell_dat.hpp", I + "loop/particle_loop_reduction.hpp", I + "particle_sub_group/particle_loop_sub_group_reduction.hpp",
      I + "algorithms/common.hpp"],
     [("atomic access objects, pre and post loop hooks", I + "containers/global_array.hpp"),
      ("cell-wise reduction kernels", I + "loop/particle_loop_reduction.hpp")],
     observe=["Access::add", "Access::min", "Access::max", "LocalArray::get", "GlobalArray::get", "CellDatConst::get_cell"])

prop("C06", "A sub-group is always the current selection; a static one fails when stale",
     "Whenever a non-static sub-group is used it contains exactly the particles that satisfy its selection condition at that moment, whatever property writes, "
     "moves, additions or removals happened since it was last used. A static sub-group keeps its selection until the group's particles change and from then on reports itself invalid.",
     ["histories"],
     "all sequences of property writes (by loops, direct access, host writes), moves, additions, removals and sub-group uses, including sub-groups of sub-groups",
     "tests try a handful of single invalidation events",
     ["src/particle_sub_group/particle_sub_group_base.cpp", "src/particle_sub_group/sub_group_selector_base.cpp", "src/particle_group.cpp", I + "particle_group.hpp",
      I + "particle_dat.hpp", I + "containers/cell_dat.hpp", "src/particle_sub_group/sub_group_selector.cpp", I + "containers/sym_vector.hpp"],
     [("version counters bumped by write callbacks", I + "particle_group.hpp"),
      ("create_if_required", "src/particle_sub_group/particle_sub_group_base.cpp")],
     observe=["ParticleSubGroup::get_npart_local", "particle_loop over sub-group", "ParticleSubGroup::is_valid"])

prop("C07", "Sub-group selectors and partitions select exactly what they are defined to",
     "Selection by cells, truncation to the first n per cell, discarding the first n per cell, disjoint unions, copies, per-cell sub-groups and partitions "
     "yield exactly the particles their definition gives: truncation and discard with the same n split the parent, a union holds the members of each part once, "
     "and a partition puts each particle in exactly one class. Per-cell counts and the (cell, layer) lists of a sub-group agree with its members.",
     ["inputs", "histories"],
     "all occupancies, per-cell counts, nesting of selectors, partition key functions and sub-group parents",
     "tests check each selector alone on one population",
     ["src/particle_sub_group/truncate_sub_group_selector.cpp", "src/particle_sub_group/discard_sub_group_selector.cpp",
      "src/particle_sub_group/disjoint_union_sub_group_selector.cpp", "src/particle_sub_group/copy_selector.cpp", "src/particle_sub_group/cell_sub_group_selector.cpp",
      "src/particle_sub_group/particle_group_partition.cpp", I + "particle_sub_group/particle_group_partition.hpp", "src/particle_sub_group/sub_group_selector_base.cpp",
      I + "particle_sub_group/sub_group_selector_exclusive_scan.hpp", "src/particle_sub_group/sub_group_selector_utility.cpp"],
     [("selection maps", "src/particle_sub_group/sub_group_selector_base.cpp")],
     observe=["particle_sub_group_truncate", "particle_sub_group_discard", "particle_sub_group_disjoint_union", "particle_group_partition"])

prop("C08", "Creating particles from products, groups and sub-groups adds exactly those",
     "Adding products creates one particle per product with exactly the property values the product was given; unspecified properties come from the parent for descendant products "
     "(position and cell included) or take their defaults, and products without a parent are skipped. Adding a group or sub-group into a group appends exactly copies of its particles, cell by cell, for the properties both share, leaving existing particles untouched.",
     ["inputs", "histories"],
     "all numbers of products per parent, property specifications (real/integer, several components, with and without cell and rank properties), occupancies and source groups",
     "tests use one specification and one product pattern",
     ["src/particle_group.cpp", I + "containers/product_matrix.hpp", I + "containers/descendant_products.hpp", "src/containers/descendant_products.cpp", "src/particle_group_temporary.cpp"],
     [("add_particles_local variants", "src/particle_group.cpp")],
     observe=["ParticleGroup::add_particles_local"])

prop("C09", "Particle data read back on host and device is the stored data",
     "Reading particles by (cell, layer), reading cells of a property, and reading or writing particle sets on host or device returns exactly the stored values, component by component and in the requested order. "
     "Writing a cell, a value or a particle set changes exactly the addressed entries.",
     ["inputs", "histories"],
     "all index lists, numbers of components, occupancies and property combinations",
     "tests compare a few fixed sets",
     ["src/particle_set.cpp", "src/containers/particle_set_device.cpp", I + "containers/particle_set_device.hpp", "src/particle_group.cpp", I + "containers/cell_dat.hpp",
      I + "containers/cell_data.hpp", I + "particle_dat_direct_access.hpp", I + "particle_dat.hpp"],
     [("gather kernels", "src/particle_group.cpp")],
     observe=["ParticleGroup::get_particles", "CellDat::get_cell", "ParticleSetDevice::get"])

prop("C10", "All ranks agree on one owner for each claimed cell of the mesh hierarchy",
     "After claims are resolved every claimed cell has one owner, known identically on all ranks: a rank with the largest weight claimed for that cell, ties going to the higher rank; unclaimed cells have no owner. "
     "Conversions between tuple and linear indices are bijections, and the cell neighbourhoods reported around owned cells are complete.",
     ["schedules", "inputs", "configurations"],
     "all claim patterns, weights, claim orders, hierarchy dimensions and rank counts",
     "one rank cannot conflict with another",
     ["src/mesh_hierarchy.cpp", I + "mesh_hierarchy.hpp", "src/external_interfaces/common/local_claim.cpp", I + "external_interfaces/common/local_claim.hpp"],
     [("one-sided fetch-and-max over two shared arrays", "src/mesh_hierarchy.cpp")],
     observe=["MeshHierarchy::claim_cell", "MeshHierarchy::get_owner"])

prop("C11", "A Cartesian mesh is covered once by its cells and faces; wrapping is periodic",
     "Each cell and each boundary face of a Cartesian mesh is owned by exactly one rank, local/global/tuple/face index conversions are mutually inverse, and every rank computes the same owner. "
     "Applying periodic boundary conditions maps any position to the equivalent one inside the domain and leaves positions already inside where they are (up to rounding).",
     ["inputs", "configurations"],
     "all dimensions, dims, subdivision orders, extents, stencil widths and rank counts; all positions",
     "tests use a few meshes on one rank",
     ["src/cartesian_mesh/cartesian_h_mesh.cpp", I + "cartesian_mesh/cartesian_h_mesh.hpp", "src/cartesian_mesh/cartesian_periodic.cpp", "src/cartesian_mesh/cartesian_cell_bin.cpp",
      "src/communication/communication_utility.cpp", I + "communication/communication_utility.hpp", I + "mesh_interface.hpp"],
     [("decomposition and index maps", "src/cartesian_mesh/cartesian_h_mesh.cpp")],
     observe=["CartesianHMesh", "CartesianPeriodic::execute", "CartesianCellBin::execute"])

prop("C12", "A pair loop executes each listed pair exactly once with both particles' data",
     "For every pair of the given pair lists the kernel runs exactly once, with the first and second particle and the pair index as listed, and writes reach those particles. "
     "In the list form that allows conflicting writes, pairs that share a particle are never executed at the same time, so updates are never lost.",
     ["inputs", "schedules"],
     "all pair lists (empty cells, repeated particles, several waves), all schedules of pairs within a wave",
     "tests check fixed lists",
     ["src/pair_loop/cellwise_pair_list_block.cpp", "src/pair_loop/cellwise_pair_list_simple.cpp", "src/pair_loop/cellwise_pair_list_host.cpp",
      I + "pair_loop/particle_pair_loop_cellwise_pair_list.hpp", I + "pair_loop/particle_pair_loop_cellwise_pair_list_block.hpp", I + "pair_loop/particle_pair_loop_base.hpp",
      I + "pair_loop/particle_pair_loop_args.hpp"],
     [("wave construction", "src/pair_loop/cellwise_pair_list_block.cpp")],
     observe=["particle_pair_loop(...)->execute()"])

prop("C13", "Collision partners are valid pairs from the right collision cell and species",
     "Collision cell partitioning groups exactly the particles of each (cell, collision cell, species). "
     "Pair sampling yields the requested number of pairs wherever that many exist, each made of two different particles of the right species from the same collision cell; sampling without replacement uses no particle twice.",
     ["inputs", "histories"],
     "all occupancies of collision cells, species mixes, requested pair counts and random numbers",
     "tests check fixed populations",
     ["src/algorithms/dsmc/collision_cell_partition.cpp", "src/algorithms/dsmc/pair_sampler_ntc.cpp", "src/algorithms/dsmc/pair_sampler_no_replacement.cpp",
      I + "algorithms/dsmc/collision_cell_partition.hpp", I + "algorithms/dsmc/cellwise_all_to_all.hpp", I + "algorithms/dsmc/pair_sampler_ntc.hpp",
      I + "algorithms/dsmc/pair_sampler_no_replacement.hpp"],
     [("partition and samplers", "src/algorithms/dsmc/collision_cell_partition.cpp")],
     observe=["CollisionCellPartition", "PairSamplerNTC", "PairSamplerNoReplacement"])

prop("C14", "Trajectories are cut at, and reflected from, the first face they cross",
     "For a particle whose step leaves the domain the reported intersection is the first boundary face on the segment, with its point and normal; truncation puts the particle at that point with the elapsed fraction of the step, and reflection reverses exactly the normal velocity component. "
     "Particles that do not leave are not reported and not changed.",
     ["inputs"],
     "all start and end positions, velocities, dimensions, extents and boundary groupings",
     "tests sample random trajectories with tolerance checks on few properties",
     ["src/cartesian_mesh/cartesian_trajectory_intersection.cpp", I + "cartesian_mesh/cartesian_trajectory_intersection.hpp", "src/boundary/boundary_truncation.cpp",
      I + "boundary/boundary_truncation.hpp", "src/boundary/boundary_reflection.cpp", I + "boundary/boundary_reflection.hpp", "src/boundary/boundary_interaction_specification.cpp"],
     [("pre/post integration", "src/cartesian_mesh/cartesian_trajectory_intersection.cpp")],
     observe=["CartesianTrajectoryIntersection", "BoundaryTruncation", "BoundaryReflection"])

prop("C15", "Contributions to boundary surfaces reach the owning rank exactly once",
     "Values that particles on any rank add to boundary face elements are summed, each exactly once, on the rank that owns the element, and values fetched for faces owned elsewhere equal the owner's. "
     "This holds for any set of faces touched, repeated exchanges and growth of the set of known faces.",
     ["histories", "configurations"],
     "all rank counts, sets of faces hit, orders of extension and repeated exchanges",
     "one rank owns every face, so nothing is ever exchanged",
     ["src/boundary/boundary_mesh_interface.cpp", I + "boundary/boundary_mesh_interface.hpp", "src/cartesian_mesh/cartesian_h_mesh_function.cpp", I + "cartesian_mesh/cartesian_h_mesh_function.hpp",
      "src/cartesian_mesh/cartesian_trajectory_intersection.cpp"],
     [("extend pattern, reverse and forward exchange", "src/boundary/boundary_mesh_interface.cpp")],
     observe=["BoundaryMeshInterface"])

prop("C16", "A particle trajectory file holds exactly the particles at each written step",
     "Each write appends one step holding every particle of the group or sub-group over all ranks exactly once with the requested property values, steps being independent of each other. "
     "Reading a step returns exactly what was written, including when some ranks or all ranks have no particles.",
     ["histories", "configurations"],
     "all rank counts, occupancies (empty ranks, empty steps), property selections, numbers of steps",
     "tests write from one rank with particles always present",
     ["src/particle_io.cpp", I + "particle_io.hpp"],
     [("parallel collective hyperslab writes", "src/particle_io.cpp")],
     observe=["H5Part::write", "H5Part::read"])

prop("C17", "Device lookup containers return exactly what the host stored",
     "A lookup in a tree or table on the host, in a kernel or in a particle loop finds a key exactly when it was added and returns the value most recently added for it; absent keys are reported absent.",
     ["histories", "inputs"],
     "all sequences of insertions (any key order, negatives, duplicates, sizes across block boundaries) and lookups",
     "tests insert one sequence",
     [I + "containers/blocked_binary_tree.hpp", I + "containers/lookup_table.hpp", I + "containers/nd_index.hpp"],
     [("eight-key blocks in a binary tree", I + "containers/blocked_binary_tree.hpp")],
     observe=["BlockedBinaryTree::get", "LookupTable::get"])

prop("C18", "Temporary storage attached to particles and pooled resources never alias",
     "Values attached temporarily to the particles of a sub-group belong to exactly those particles and vanish when the selection changes. "
     "A pooled resource is never handed out twice at once, and comes back usable.",
     ["histories"],
     "all sequences of attach, write, invalidate, get and restore",
     "tests check one sequence",
     ["src/containers/ephemeral_dats.cpp", I + "containers/ephemeral_dats.hpp", I + "containers/resource_stack.hpp", I + "containers/resource_stack_map.hpp", "src/particle_group_temporary.cpp",
      "src/algorithms/particle_data_movement.cpp", I + "algorithms/particle_data_movement.hpp"],
     [("resource stack", I + "containers/resource_stack.hpp")],
     observe=["EphemeralDats", "ResourceStack::get"])

prop("C19", "Kernel random numbers come from the generator, each used at most once",
     "In a loop that draws random numbers, every particle and component receives a value produced by the supplied generator, no produced value is delivered twice, and running out is reported rather than silent. "
     "Drawing works for whole groups, sub-groups, single cells and repeated loops of growing size.",
     ["histories", "inputs"],
     "all numbers of particles, components per particle, block sizes, loop kinds and sequences of loops",
     "tests run one loop shape for each generator",
     [I + "containers/rng/host_per_particle_block_rng.hpp", I + "containers/rng/host_atomic_block_kernel_rng.hpp", I + "containers/rng/host_rng_common.hpp", I + "containers/rng/kernel_rng.hpp", I + "containers/rng/tuple_rng.hpp"],
     [("host blocks copied to the device per loop", I + "containers/rng/host_rng_common.hpp")],
     observe=["host_per_particle_block_rng", "host_atomic_block_kernel_rng"])

prop("C20", "Collective communication helpers deliver complete and correctly ordered data",
     "Gathers return every rank's data in rank order, set unions return the union everywhere, pairwise exchange and graph reversal tell each rank exactly who targets it with which data, and hierarchical gathering of serialised objects returns for each requested cell all objects contributed for it and nothing else.",
     ["configurations", "inputs"],
     "all rank counts, sizes per rank (including none), communication graphs and request patterns",
     "with one rank each of these is the identity",
     ["src/communication/communication_utility.cpp", I + "communication/communication_utility.hpp", "src/communication/communication_edges_counter.cpp", I + "communication/communication_edges_counter.hpp",
      I + "mesh_hierarchy_data/mesh_hierarchy_container.hpp", I + "mesh_hierarchy_data/serial_container.hpp"],
     [("collective helpers", "src/communication/communication_utility.cpp")],
     observe=["gather_v", "all_gather_v", "set_all_reduce_union", "reverse_graph_edge_directions", "MeshHierarchyContainer::get"])

prop("C21", "Cell-wise reductions, broadcasts, scans and value scans are exact",
     "Reducing a property over the particles of each cell (of a group or sub-group), broadcasting a per-cell value to particles, element-wise per-cell operations, prefix scans, and extraction of values not seen before all give exactly the mathematical result, including for empty cells.",
     ["inputs", "histories"],
     "all occupancies, components, operators, array sizes across work-group boundaries",
     "tests use near-uniform cells and few sizes",
     [I + "algorithms/reduce_dat_cellwise.hpp", I + "algorithms/cellwise_methods.hpp", I + "algorithms/common.hpp", "src/algorithms/common.cpp", "src/algorithms/reduce_dat_cellwise.cpp",
      I + "algorithms/unseen_value_extractor.hpp", "src/algorithms/unseen_value_extractor.cpp", "src/compute_target.cpp", I + "compute_target.hpp"],
     [("group reductions and scans", I + "algorithms/common.hpp")],
     observe=["reduce_dat_component_cellwise", "cellwise_broadcast", "joint_exclusive_scan"])

prop("C22", "Parallel initialisation distributes particles without losing or changing them",
     "Distributing particles created anywhere in the domain keeps every particle exactly once, restores its original position exactly and ends with it on the rank owning that position.",
     ["inputs", "configurations"],
     "all rank counts, initial positions, step counts and source ranks",
     "with one rank there is nothing to distribute",
     ["src/parallel_initialisation.cpp", I + "parallel_initialisation.hpp"],
     [("advection along straight lines with hybrid moves", "src/parallel_initialisation.cpp")],
     observe=["parallel_advection_initialisation"])

prop("C23", "Overlay meshes and degree of freedom maps cover and index consistently",
     "Every point inside an overlay mesh's box maps to the cell containing it and points outside map to the nearest cell, cells reported to intersect a box are exactly those that do, and degree-of-freedom and quadrature-point mappings address distinct entries and return the values stored for each.",
     ["inputs", "configurations"],
     "all boxes, cell counts, points, mesh decompositions and rank counts",
     "tests check sample points on one rank",
     ["src/external_interfaces/common/overlay_cartesian_mesh.cpp", I + "external_interfaces/common/overlay_cartesian_mesh.hpp", "src/external_interfaces/common/dof_mapper_dg.cpp",
      "src/external_interfaces/common/quadrature_point_mapper.cpp", I + "external_interfaces/common/bounding_box.hpp", I + "external_interfaces/common/quadrature_point_mapper.hpp"],
     [("index arithmetic", "src/external_interfaces/common/overlay_cartesian_mesh.cpp")],
     observe=["OverlayCartesianMesh", "DOFMapperDG", "QuadraturePointMapper"])

prop("C24", "Unstructured mesh particles are binned, moved and projected correctly",
     "On unstructured meshes distributed over ranks each particle inside the mesh is bound to a cell that contains it on the rank that owns that cell, without loss or change of particle data. "
     "Depositing particle values onto cells and evaluating cell values at particles conserves totals and returns the value of the particle's cell.",
     ["inputs", "configurations"],
     "all mesh sizes, rank counts, positions",
     "one rank and one mesh",
     ["src/external_interfaces/petsc/dmplex_interface.cpp", "src/external_interfaces/petsc/dmplex_helper.cpp", "src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp",
      "src/external_interfaces/petsc/particle_cell_mapping/dmplex_host_mapper.cpp", "src/external_interfaces/petsc/project_evaluate/dmplex_project_evaluate_dg.cpp",
      "src/external_interfaces/petsc/dmplex_cell_serialise.cpp", "src/external_interfaces/petsc/dmplex_utility.cpp"],
     [("cell serialisation to overlay mesh owners", "src/external_interfaces/petsc/dmplex_interface.cpp")],
     observe=["PetscInterface::DMPlexInterface"])


def main():
    import sys
    sys.path.insert(0, os.path.join(V, "tools"))
    import props
    claimed = [p for p in P if p["id"] in props.PLANS]
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            for f in p["files"]:
                assert os.path.exists("/repo/" + f), f
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "observe_at": p["observe"] or [],
                    "hook_needed": None}}) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3 tools/setup.py",
         "hooks": {"guard": "NESO_PARTICLES_VERIF",
                   "enable": "no hooks are needed: the drivers observe the public interface; the harness compiles /repo against harness/vsycl",
                   "source_commits": []},
         "checks": [], "not_applicable": [],
         "notes": "TLA+ checked with TLC; see DESIGN.md"}
    for p in P:
        if p in claimed:
            m["checks"].append({
                "property": p["id"],
                "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                "technique": p["technique"] or "TLA+ specification checked with TLC; trace validation of recorded executions against it",
                "level": "model_checking",
                "level_note": p["note"] or "Every recorded execution (randomised histories over several rank counts and device schedules) is checked event by event against the specification by TLC; the implementation is covered as far as the histories reach."})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "no check yet"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
