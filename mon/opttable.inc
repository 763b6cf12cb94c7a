// documented Bonmin options: name, type (0 integer, 1 number, 2 string), default, range, values (doc/options_list_bonmin_content.tex)
{"2mir_cuts", 0, "0", -100, 999999, ""},
{"Gomory_cuts", 0, "-5", -100, 999999, ""},
{"add_only_violated_oa", 2, "no", 0, 0, "no,yes"},
{"algorithm", 2, "B-BB", 0, 0, "B-BB,B-OA,B-QG,B-Hyb,B-Ecp,B-iFP"},
{"allowable_fraction_gap", 1, "0", -1e+20, 1e+20, ""},
{"allowable_gap", 1, "0", -1e+20, 1e+20, ""},
{"bb_log_interval", 0, "100", 0, 999999, ""},
{"bb_log_level", 0, "1", 0, 5, ""},
{"candidate_sort_criterion", 2, "best-ps-cost", 0, 0, "best-ps-cost,worst-ps-cost,most-fractional,least-fractional"},
{"clique_cuts", 0, "-5", -100, 999999, ""},
{"coeff_var_threshold", 1, "0.1", 0, 1e+30, ""},
{"cover_cuts", 0, "0", -100, 999999, ""},
{"cpx_parallel_strategy", 0, "0", -1, 1, ""},
{"cutoff", 1, "1e+100", -1e+100, 1e+100, ""},
{"cutoff_decr", 1, "1e-05", -1e+10, 1e+10, ""},
{"dynamic_def_cutoff_decr", 2, "no", 0, 0, "no,yes"},
{"ecp_abs_tol", 1, "1e-06", 0, 1e+30, ""},
{"ecp_max_rounds", 0, "5", 0, 999999, ""},
{"ecp_probability_factor", 1, "10", -1e+30, 1e+30, ""},
{"ecp_rel_tol", 1, "0", 0, 1e+30, ""},
{"enable_dynamic_nlp", 2, "no", 0, 0, "no,yes"},
{"feas_check_cut_types", 2, "outer-approx", 0, 0, "outer-approx,Benders"},
{"feas_check_discard_policy", 2, "detect-cycles", 0, 0, "detect-cycles,keep-all,treated-as-normal"},
{"feasibility_pump_objective_norm", 0, "1", 1, 2, ""},
{"file_solution", 2, "no", 0, 0, "yes,no"},
{"filmint_ecp_cuts", 0, "0", 0, 999999, ""},
{"first_perc_for_cutoff_decr", 1, "-0.02", -1e+30, 1e+30, ""},
{"flow_cover_cuts", 0, "-5", -100, 999999, ""},
{"fp_log_frequency", 1, "100", 0, 1e+30, ""},
{"fp_log_level", 0, "1", 0, 2, ""},
{"fp_pass_infeasible", 2, "no", 0, 0, "no,yes"},
{"generate_benders_after_so_many_oa", 0, "5000", 0, 999999, ""},
{"heuristic_RINS", 2, "no", 0, 0, "no,yes"},
{"heuristic_dive_MIP_fractional", 2, "no", 0, 0, "no,yes"},
{"heuristic_dive_MIP_vectorLength", 2, "no", 0, 0, "no,yes"},
{"heuristic_dive_fractional", 2, "no", 0, 0, "no,yes"},
{"heuristic_dive_vectorLength", 2, "no", 0, 0, "no,yes"},
{"heuristic_feasibility_pump", 2, "no", 0, 0, "no,yes"},
{"integer_tolerance", 1, "1e-06", 0, 1e+30, ""},
{"iteration_limit", 0, "2147483647", 0, 999999, ""},
{"lift_and_project_cuts", 0, "0", -100, 999999, ""},
{"lp_log_level", 0, "0", 0, 4, ""},
{"max_consecutive_failures", 0, "10", 0, 999999, ""},
{"max_consecutive_infeasible", 0, "0", 0, 999999, ""},
{"max_random_point_radius", 1, "100000", 0, 1e+30, ""},
{"maxmin_crit_have_sol", 1, "0.1", 0, 1, ""},
{"maxmin_crit_no_sol", 1, "0.7", 0, 1, ""},
{"milp_log_level", 0, "0", 0, 4, ""},
{"milp_solver", 2, "Cbc_D", 0, 0, "Cbc_D,Cbc_Par,Cplex"},
{"milp_strategy", 2, "solve_to_optimality", 0, 0, "find_good_sol,solve_to_optimality"},
{"min_number_strong_branch", 0, "0", 0, 999999, ""},
{"mir_cuts", 0, "-5", -100, 999999, ""},
{"nlp_failure_behavior", 2, "stop", 0, 0, "stop,fathom"},
{"nlp_log_at_root", 0, "0", 0, 12, ""},
{"nlp_log_level", 0, "1", 0, 2, ""},
{"nlp_solve_frequency", 0, "10", 0, 999999, ""},
{"nlp_solve_max_depth", 0, "10", 0, 999999, ""},
{"nlp_solver", 2, "Ipopt", 0, 0, "Ipopt,filterSQP,all"},
{"nlp_solves_per_depth", 1, "1e+100", 0, 1e+30, ""},
{"node_comparison", 2, "best-bound", 0, 0, "best-bound,depth-first,breadth-first,dynamic,best-guess"},
{"node_limit", 0, "2147483647", 0, 999999, ""},
{"num_cut_passes", 0, "1", 0, 999999, ""},
{"num_cut_passes_at_root", 0, "20", 0, 999999, ""},
{"num_iterations_suspect", 0, "-1", -1, 999999, ""},
{"num_resolve_at_infeasibles", 0, "0", 0, 999999, ""},
{"num_resolve_at_node", 0, "0", 0, 999999, ""},
{"num_resolve_at_root", 0, "0", 0, 999999, ""},
{"num_retry_unsolved_random_point", 0, "0", 0, 999999, ""},
{"number_before_trust", 0, "8", 0, 999999, ""},
{"number_before_trust_list", 0, "0", -1, 999999, ""},
{"number_cpx_threads", 0, "0", 0, 999999, ""},
{"number_look_ahead", 0, "0", 0, 999999, ""},
{"number_strong_branch", 0, "20", 0, 999999, ""},
{"number_strong_branch_root", 0, "2147483647", 0, 999999, ""},
{"oa_cuts_log_level", 0, "0", 0, 999999, ""},
{"oa_cuts_scope", 2, "global", 0, 0, "local,global"},
{"oa_decomposition", 2, "no", 0, 0, "no,yes"},
{"oa_log_frequency", 1, "100", 0, 1e+30, ""},
{"oa_log_level", 0, "1", 0, 2, ""},
{"oa_rhs_relax", 1, "1e-08", -0, 1e+30, ""},
{"pump_for_minlp", 2, "no", 0, 0, "no,yes"},
{"random_generator_seed", 0, "0", -1, 999999, ""},
{"random_point_perturbation_interval", 1, "1", 0, 1e+30, ""},
{"random_point_type", 2, "Jon", 0, 0, "Jon,Andreas,Claudia"},
{"read_solution_file", 2, "no", 0, 0, "no,yes"},
{"reduce_and_split_cuts", 0, "0", -100, 999999, ""},
{"resolve_on_small_infeasibility", 1, "0", 0, 1e+30, ""},
{"second_perc_for_cutoff_decr", 1, "-0.05", -1e+30, 1e+30, ""},
{"setup_pseudo_frac", 1, "0.5", 0, 1, ""},
{"solution_limit", 0, "2147483647", 0, 999999, ""},
{"sos_constraints", 2, "enable", 0, 0, "enable,disable"},
{"time_limit", 1, "1e+10", 0, 1e+30, ""},
{"tiny_element", 1, "1e-08", -0, 1e+30, ""},
{"tree_search_strategy", 2, "probed-dive", 0, 0, "top-node,dive,probed-dive,dfs-dive,dfs-dive-dynamic"},
{"trust_strong_branching_for_pseudo_cost", 2, "yes", 0, 0, "no,yes"},
{"variable_selection", 2, "strong-branching", 0, 0, "most-fractional,strong-branching,reliability-branching,qp-strong-branching,lp-strong-branching,nlp-strong-branching,osi-simple,osi-strong,random"},
{"very_tiny_element", 1, "1e-17", -0, 1e+30, ""},
{"warm_start", 2, "none", 0, 0, "none,fake_basis,optimum,interior_point"},
