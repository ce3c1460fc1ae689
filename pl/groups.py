"""The functions whose effects are compared with the record, per property."""
GROUPS = {
    # the parts of a program that describe the same dimensions, hyperplanes, statements, parameters
    "C20": """denormalize_domains
        pluto_deps_list_append precut cut_smart cut_conservative normalize_domains pluto_iss
        pluto_stmt_add_dim pluto_stmt_remove_dim pluto_prog_add_param pluto_stmt_add_hyperplane pluto_prog_add_hyperplane
        pluto_sink_transformation pluto_sink_statement pluto_separate_stmt pluto_separate_stmts pluto_interchange
        pluto_stmt_loop_interchange pluto_make_innermost_loop pluto_add_stmt pluto_add_given_stmt pluto_remove_stmt decrement_stmt_id
        pluto_update_deps pluto_pad_stmt_transformations cut_between_sccs cut_all_sccs cut_scc_dim_based
        pluto_add_hyperplane_from_ilp_solution pluto_add_dep pluto_create_stmt pluto_add_scalar_hyperplanes_between_sccs
        copy_hyperplane pluto_stmt_get_schedule pluto_get_new_domain pluto_update_deps_after_iss
        pluto_matrix_add_row pluto_matrix_add_col pluto_matrix_remove_row pluto_matrix_remove_col pluto_constraints_remove_row
        pluto_constraints_remove_dim pluto_constraints_add_dim pluto_constraints_add_leading_dims""",
    # constraint systems and matrices
    "C21": """gcd lcm pluto_constraints_set_names pluto_constraints_project_out pluto_constraints_project_out_single fourier_motzkin_eliminate
        fourier_motzkin_eliminate_smart pluto_matrix_to_row_echelon get_linearly_independent_rows_in_mat pluto_constraints_alloc pluto_matrix_alloc pluto_matrix_resize
        pluto_constraints_add pluto_constraints_add_constraint pluto_constraints_add_equality pluto_constraints_add_inequality
        pluto_constraints_add_to_each pluto_constraints_copy pluto_constraints_copy_single pluto_constraints_empty
        pluto_constraints_universe pluto_constraints_extract_equalities pluto_constraints_from_equalities
        pluto_constraints_from_inequalities pluto_constraints_from_matrix pluto_constraints_from_mixed_matrix
        pluto_constraints_gaussian_eliminate pluto_constraints_interchange_cols pluto_constraints_is_empty
        pluto_constraints_is_ub pluto_constraints_list_add pluto_constraints_list_replace
        pluto_constraints_negate_constraint pluto_constraints_negate_row pluto_constraints_num_in_list
        pluto_constraints_resize_single pluto_constraints_resize pluto_constraints_select_row pluto_constraints_set_names_range
        pluto_constraints_shift_dim pluto_constraints_to_matrix pluto_constraints_to_pure_inequalities_single
        pluto_constraints_unionize pluto_constraints_unionize_simple pluto_constraints_zero pluto_constraints_zero_row
        pluto_constraints_add_lb pluto_constraints_add_ub pluto_constraints_set_var
        pluto_hyperplane_get_negative_half_space pluto_hyperplane_get_non_negative_half_space farkas_lemma_affine row_compar
        are_pluto_matrices_equal gaussian_eliminate gaussian_eliminate_var min_lexical pluto_matrix_add pluto_matrix_dup
        pluto_matrix_identity pluto_matrix_interchange_cols pluto_matrix_interchange_rows pluto_matrix_move_col pluto_matrix_negate
        pluto_matrix_negate_row pluto_matrix_reverse_rows pluto_matrix_set pluto_matrix_swap_rows pluto_matrix_zero_col
        pluto_matrix_zero_row pluto_vector_is_parallel pluto_vector_is_normal pluto_matrix_product pluto_matrix_copy
        pluto_matrix_initialize""",
    # the problem that is solved for a hyperplane, and what is done with the solution
    "C22": """get_scc_permutability_constraints get_dep_distance_bounding_constraints_for_scc
        get_cc_permutability_constraints get_dep_dist_lower_bound_constraints_for_scc get_inter_scc_dep_constraints
        get_lin_ind_constraints dfp_get_scc_ortho_constraints
        get_feautrier_schedule_constraints pluto_mip_scale_solutions_glpk pluto_fcg_constraints_lexmin_glpk pluto_prog_constraints_lexmin_glpk
        find_permutable_hyperplanes construct_cplex_objective pluto_iss get_stmt_lin_ind_constraints
        compute_permutability_constraints_dep get_feautrier_schedule_constraints_dep get_non_trivial_sol_constraints
        get_coeff_bounding_constraints get_coeff_bounding_constraints_for_cone_complement get_per_cc_obj_sum_constraints
        get_permutability_constraints compute_pairwise_permutability compute_dep_dist_lb_constraints_for_stencil_check
        pluto_find_iss is_concurrent_start_face find_cone_complement_hyperplane get_skewing_constraints
        find_optimal_solution_glpk get_ilp_solution_from_glpk_problem get_lp_solution_from_glpk_problem set_glpk_problem_params
        set_glpk_objective_from_pluto_matrix set_glpk_constraints_from_pluto_constraints pluto_constraints_solve_glpk pluto_constraints_lexmin
        populate_scaling_csr_matrices_for_pluto_program get_scaling_lp_glpk
        add_coeff_constraints_from_fcg_colouring add_coeff_constraints_from_scc_clustered_fcg_colouring
        pluto_fusion_constraints_feasibility_solve compute_intra_stmt_deps get_num_csr_nonzeroes
        pluto_add_hyperplane_from_ilp_solution get_linear_ind_constraints find_hyperplane_to_be_evicted""",
    # dependences: which are satisfied where, and what follows for the loops
    "C23": """pluto_get_parallel_band pluto_get_outermost_loops pluto_get_dom_parallel_loops pluto_get_dom_parallel_bands
        pluto_get_innermost_permutable_bands pluto_loop_dup get_outermost_sat_level ddg_compute_cc
        pluto_check_supernode add_if_new_var
        is_ilp_solution_parallel pluto_get_all_loops pluto_get_loops_under pluto_get_dominator_bands pluto_get_permutable_band pluto_get_max_ind_hyps
        pluto_get_max_ind_hyps_non_scalar pluto_band_has_wavefront_parallelism
        dep_is_satisfied dep_satisfaction_test dep_satisfaction_update deps_satisfaction_check pluto_compute_dep_directions
        pluto_compute_dep_satisfaction pluto_dep_satisfaction_reset get_dep_direction
        pluto_dep_satisfies_instance pluto_dep_remove_satisfied_instances is_long_bidirectional_dep
        pluto_detect_hyperplane_types pluto_detect_hyperplane_types_stmtwise get_loop_type pluto_is_hyperplane_loop
        pluto_is_hyperplane_scalar pluto_loop_is_parallel pluto_loop_is_parallel_for_stmt pluto_loop_is_vectorizable
        pluto_loop_has_satisfied_dep_with_component pluto_satisfies_inter_stmt_dep pluto_loop_is_innermost pluto_is_depth_scalar
        pluto_is_band_innermost is_loop_dominated is_band_dominated pluto_are_stmts_fused are_stmts_fused_in_band are_sccs_fused
        get_outermost_parallel_loop getDeepestNonScalarLoop get_first_non_scalar_hyperplane pluto_transformations_full_ranked
        ddg_create ddg_update ddg_sccs_direct_connected ddg_compute_scc is_adjacent graph_transpose get_undirected_graph dfs dfs_vertex
        dfs_for_scc compute_scc_vertices pluto_get_parallel_loops pluto_get_loops_immediately_inner pluto_get_innermost_loops
        pluto_loop_compar has_spatial_reuse is_invariant is_access_invariant are_pluto_accesses_same is_convex_scc get_max_pred_scc
        get_min_succ_scc pluto_stmt_is_subset_of pluto_stmt_is_member_of pluto_stmt_get_num_ind_hyps
        pluto_stmt_get_num_ind_hyps_non_scalar pluto_get_outermost_permutable_bands pluto_bands_cat pluto_loops_cat""",
    # transformations applied to the schedule afterwards
    "C24": """pluto_diamond_tile
        get_lb_ub_expr get_parametric_extent
        pluto_band_has_wavefront_parallelism pluto_detect_mark_register_tile_loops is_unroll_jam_profitable round_tile_sizes_wrt_unroll_jam_factor
        insert_access_if_unique is_access_present get_num_accesses has_zero_dim_reuse pluto_get_all_waccs
        pluto_tile_band pluto_tile_scattering_dims pluto_create_tile_schedule pluto_create_tile_schedule_band
        pluto_diamond_tile_reschedule getInnermostTilableBand get_per_stmt_band fuse_per_stmt_bands
        pluto_sink_statement pluto_interchange pluto_make_innermost_loop pluto_intra_tile_optimize_band make_parallel_loop_innermost
        gen_reg_tile_file pluto_loop_is_vectorizable approximate_to_nearest_multiple
        pluto_schedule_prog pluto_intra_tile_optimize""",
    # between isl and the program
    "C25": """isl_basic_map_from_pluto_constraints get_func_of_expr mpz_fits_ll
        extract_basic_set_constraints isl_basic_map_to_pluto_constraints isl_basic_map_to_pluto_constraints_func_arg
        isl_basic_set_from_pluto_constraints isl_basic_set_to_pluto_constraints isl_map_to_pluto_func isl_set_to_pluto_constraints
        isl_set_from_pluto_constraints pluto_constraints_intersect_isl pluto_constraints_intersection_isl pluto_constraints_lexmin_isl
        pluto_constraints_project_out_isl pluto_constraints_project_out_isl_single pluto_constraints_union_isl
        pluto_constraints_unionize_isl isl_aff_to_pluto_func pluto_matrix_from_isl_mat isl_val_get_num_ll
        compute_deps_isl extract_deps_from_isl_union_map isl_basic_map_extract_access_func isl_map_extract_access_func
        extract_accesses_for_pluto_stmt extract_basic_set extract_stmt normalize_domain_schedule
        pluto_schedules_to_isl stmt_filter pluto_schedule pluto_schedule_str pluto_get_remapping pluto_transform
        map_extract_dep basic_map_extract_dep pluto_stmt_get_remapping floor_div ceil_div pluto_get_new_access_func""",
    # which statements may be fused and permuted
    "C26": """build_fusion_conflict_graph introduce_skew fcg_scc_cluster_add_permute_preventing_edges
        colour_scc_cluster_greedy find_permutable_dimensions_scc_based get_common_parallel_dims_for_sccs
        get_convex_preds_from_convex_successors fcg_add_intra_scc_edges
        cut_smart cut_conservative get_max_dim
        is_colour_par_preventing is_discarded is_valid_colour scc_has_must_distribute_edges
        get_vertex_colour_from_scc_colour get_vertex_properties_from_scc_properties set_scc_properties_from_vertex_properties
        get_scc_colours_from_vertex_colours reset_scc_colouring cut_around_scc cut_from_predecessor add_must_distribute_edges
        add_permute_preventing_edges update_scc_cluster_fcg_between_sccs get_colourable_dims get_colouring_dim
        get_next_min_vertex get_next_min_vertex_scc_cluster get_min_convex_successor colour_convex_successors
        dims_to_be_skewed get_dep_satisfaction_dims get_negative_components scale_shift_permutations
        compute_intra_scc_dep_cst constant_deps_in_scc rebuild_scc_cluster_fcg get_common_dims get_common_parallel_dims
        get_convex_successors get_convex_parallel_successors""",
}
GROUPS = {k: v.split() for k, v in GROUPS.items()}
