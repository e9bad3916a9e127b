  {NLP, "Hessian", 's', 0, 0, 0, "quasinewton_approx", {"quasinewton_approx","analytical_exact",}},
  {NLP, "KKTLinsys", 's', 0, 0, 0, "auto", {"auto","xycyd","xdycyd","full","condensed","normaleqn",}},
  {NLP, "accept_every_trial_step", 's', 0, 0, 0, "no", {"no","yes",}},
  {NLP, "acceptable_iterations", 'i', 10, 1, 1000000, "", {}},
  {NLP, "acceptable_tolerance", 'n', 9.9999999999999995e-07, 1e-14, 0.10000000000000001, "", {}},
  {NLP, "bound_relax_perturb", 'n', 1e-08, 0, 1e+20, "", {}},
  {NLP, "callback_mem_space", 's', 0, 0, 0, "default", {"default",}},
  {NLP, "checkpoint_file", 's', 0, 0, 0, "hiop_state_chk", {}},
  {NLP, "checkpoint_load_on_start", 's', 0, 0, 0, "no", {"yes","no",}},
  {NLP, "checkpoint_save", 's', 0, 0, 0, "no", {"yes","no",}},
  {NLP, "checkpoint_save_every_N_iter", 'i', 10, 1, 1000000, "", {}},
  {NLP, "comp_tol", 'n', 0.0001, 9.9999999999999998e-17, 10000000000, "", {}},
  {NLP, "compute_mode", 's', 0, 0, 0, "cpu", {"auto","cpu","hybrid","gpu",}},
  {NLP, "cons_tol", 'n', 0.0001, 9.9999999999999998e-17, 10000000000, "", {}},
  {NLP, "delta_0_bar", 'n', 0.0001, 0, 1e+40, "", {}},
  {NLP, "delta_c_bar", 'n', 1e-08, 9.9999999999999995e-21, 1e+40, "", {}},
  {NLP, "delta_w_max_bar", 'n', 1e+20, 9.9999999999999993e-41, 1e+40, "", {}},
  {NLP, "delta_w_min_bar", 'n', 9.9999999999999995e-21, 0, 1000, "", {}},
  {NLP, "dual_tol", 'n', 1, 9.9999999999999998e-17, 10000000000, "", {}},
  {NLP, "duals_init", 's', 0, 0, 0, "lsq", {"lsq","zero",}},
  {NLP, "duals_init_linear_solver_sparse", 's', 0, 0, 0, "auto", {"auto","ma57","pardiso","resolve","strumpack","ginkgo",}},
  {NLP, "duals_lsq_ini_max", 'n', 1000, 9.9999999999999998e-17, 10000000000, "", {}},
  {NLP, "duals_update_type", 's', 0, 0, 0, "lsq", {"lsq","linear",}},
  {NLP, "elastic_bound_strategy", 's', 0, 0, 0, "mu_projected", {"mu_projected","mu_scaled",}},
  {NLP, "elastic_mode", 's', 0, 0, 0, "none", {"none","tighten_bound","correct_it","correct_it_adjust_bound",}},
  {NLP, "elastic_mode_bound_relax_final", 'n', 9.9999999999999998e-13, 9.9999999999999998e-17, 0.10000000000000001, "", {}},
  {NLP, "elastic_mode_bound_relax_initial", 'n', 0.01, 1e-08, 0.10000000000000001, "", {}},
  {NLP, "eq_relax_factor", 'n', 1e-08, 1.0000000000000001e-15, 1, "", {}},
  {NLP, "eta_phi", 'n', 1e-08, 0, 0.01, "", {}},
  {NLP, "exec_policies", 's', 0, 0, 0, "auto", {"auto","seq",}},
  {NLP, "fact_acceptor", 's', 0, 0, 0, "inertia_correction", {"inertia_correction","inertia_free",}},
  {NLP, "fixed_var", 's', 0, 0, 0, "none", {"remove","relax","none",}},
  {NLP, "fixed_var_perturb", 'n', 1e-08, 1e-14, 0.10000000000000001, "", {}},
  {NLP, "fixed_var_tolerance", 'n', 1.0000000000000001e-15, 1.0000000000000001e-30, 0.01, "", {}},
  {NLP, "force_resto", 's', 0, 0, 0, "no", {"no","yes",}},
  {NLP, "ginkgo_exec", 's', 0, 0, 0, "reference", {"cuda","hip","reference",}},
  {NLP, "ginkgo_trisolve", 's', 0, 0, 0, "syncfree", {"syncfree","sparselib",}},
  {NLP, "ir_inner_conv_cond", 'i', 0, 0, 2, "", {}},
  {NLP, "ir_inner_gs_scheme", 's', 0, 0, 0, "mgs", {"mgs","cgs2","mgs_two_synch","mgs_pm",}},
  {NLP, "ir_inner_maxit", 'i', 50, 0, 1000, "", {}},
  {NLP, "ir_inner_restart", 'i', 20, 1, 100, "", {}},
  {NLP, "ir_inner_tol", 'n', 9.9999999999999998e-13, 9.9999999999999998e-17, 0.10000000000000001, "", {}},
  {NLP, "ir_inner_tol_factor", 'n', 0.01, 9.9999999999999995e-21, 1, "", {}},
  {NLP, "ir_inner_tol_min", 'n', 9.9999999999999995e-07, 9.9999999999999998e-17, 0.10000000000000001, "", {}},
  {NLP, "ir_outer_maxit", 'i', 8, 0, 100, "", {}},
  {NLP, "ir_outer_tol_factor", 'n', 0.01, 9.9999999999999995e-21, 1, "", {}},
  {NLP, "ir_outer_tol_min", 'n', 9.9999999999999995e-07, 9.9999999999999995e-21, 1e+20, "", {}},
  {NLP, "kappa1", 'n', 0.01, 9.9999999999999998e-17, 1, "", {}},
  {NLP, "kappa2", 'n', 0.01, 9.9999999999999998e-17, 0.49998999999999999, "", {}},
  {NLP, "kappa_c", 'n', 0.25, 0, 1e+40, "", {}},
  {NLP, "kappa_eps", 'n', 10, 9.9999999999999995e-07, 1000, "", {}},
  {NLP, "kappa_mu", 'n', 0.20000000000000001, 1e-08, 0.999, "", {}},
  {NLP, "kappa_resto", 'n', 0.90000000000000002, 0, 1, "", {}},
  {NLP, "kappa_soc", 'n', 0.98999999999999999, 0, 1e+20, "", {}},
  {NLP, "kappa_w_minus", 'n', 0.33333333333333331, 9.9999999999999995e-21, 1, "", {}},
  {NLP, "kappa_w_plus", 'n', 8, 1, 1e+40, "", {}},
  {NLP, "kappa_w_plus_bar", 'n', 100, 1, 1e+40, "", {}},
  {NLP, "linear_solver_sparse", 's', 0, 0, 0, "auto", {"auto","ma57","pardiso","strumpack","resolve","ginkgo","cusolver-chol",}},
  {NLP, "linear_solver_sparse_ordering", 's', 0, 0, 0, "symamd-eigen", {"metis","symamd-cuda","symamd-eigen","symrcm","amd-ssparse","colamd-ssparse",}},
  {NLP, "linsol_mode", 's', 0, 0, 0, "stable", {"stable","speculative","forcequick",}},
  {NLP, "max_iter", 'i', 3000, 1, 1000000, "", {}},
  {NLP, "max_soc_iter", 'i', 4, 0, 1000000, "", {}},
  {NLP, "mem_backend", 's', 0, 0, 0, "auto", {"auto","stdcpp",}},
  {NLP, "mem_space", 's', 0, 0, 0, "default", {"default",}},
  {NLP, "min_step_size", 'n', 9.9999999999999998e-17, 0, 1000000, "", {}},
  {NLP, "moving_lim_abs", 'n', 0, 0, 100000000, "", {}},
  {NLP, "moving_lim_rel", 'n', 0, 0, 1, "", {}},
  {NLP, "mu0", 'n', 1, 9.9999999999999998e-17, 1000, "", {}},
  {NLP, "neg_curv_test_fact", 'n', 9.9999999999999994e-12, 0, 1e+20, "", {}},
  {NLP, "normaleqn_regularization_priority", 's', 0, 0, 0, "dual_first", {"primal_first","dual_first",}},
  {NLP, "options_file_fr_prob", 's', 0, 0, 0, "hiop_fr.options", {}},
  {NLP, "print_options", 's', 0, 0, 0, "no", {"yes","no","short",}},
  {NLP, "recalc_lsq_duals_tol", 'n', 9.9999999999999995e-07, 0, 10000000000, "", {}},
  {NLP, "regularization_method", 's', 0, 0, 0, "scalar", {"scalar","randomized",}},
  {NLP, "rel_tolerance", 'n', 0, 0, 0.10000000000000001, "", {}},
  {NLP, "resolve_factorization", 's', 0, 0, 0, "klu", {"klu",}},
  {NLP, "resolve_refactorization", 's', 0, 0, 0, "glu", {"glu","rf",}},
  {NLP, "scaling_max_con_grad", 'n', 0, 0, 1e+20, "", {}},
  {NLP, "scaling_max_grad", 'n', 100, 9.9999999999999995e-21, 1e+20, "", {}},
  {NLP, "scaling_max_obj_grad", 'n', 0, 0, 1e+20, "", {}},
  {NLP, "scaling_min_grad", 'n', 1e-08, 0, 1e+20, "", {}},
  {NLP, "scaling_type", 's', 0, 0, 0, "gradient", {"none","gradient",}},
  {NLP, "secant_memory_len", 'i', 6, 0, 256, "", {}},
  {NLP, "sigma0", 'n', 1, 0, 10000000, "", {}},
  {NLP, "sigma_update_strategy", 's', 0, 0, 0, "sty", {"sigma0","sty","sty_inv","snrm_ynrm","sty_srnm_ynrm",}},
  {NLP, "smax", 'n', 100, 1, 10000000, "", {}},
  {NLP, "tau_min", 'n', 0.98999999999999999, 0.90000000000000002, 0.99999000000000005, "", {}},
  {NLP, "theta_max_fact", 'n', 10000, 0, 10000000, "", {}},
  {NLP, "theta_min_fact", 'n', 0.0001, 0, 10000000, "", {}},
  {NLP, "theta_mu", 'n', 1.5, 1, 2, "", {}},
  {NLP, "time_kkt", 's', 0, 0, 0, "off", {"on","off",}},
  {NLP, "tolerance", 'n', 1e-08, 1e-14, 0.10000000000000001, "", {}},
  {NLP, "verbosity_level", 'i', 3, 0, 12, "", {}},
  {NLP, "warm_start", 's', 0, 0, 0, "no", {"no","yes",}},
  {NLP, "write_kkt", 's', 0, 0, 0, "no", {"no","yes",}},
  {PRI, "acceptable_iterations", 'i', 25, 1, 1000000, "", {}},
  {PRI, "acceptable_tolerance", 'n', 0.001, 1e-14, 0.10000000000000001, "", {}},
  {PRI, "accum_local", 's', 0, 0, 0, "false", {"yes","no",}},
  {PRI, "alpha_max", 'n', 1000000, 1, 100000000000000, "", {}},
  {PRI, "alpha_min", 'n', 1.0000000000000001e-05, 1e-08, 1000, "", {}},
  {PRI, "max_iter", 'i', 30000, 1, 1000000000, "", {}},
  {PRI, "mem_space", 's', 0, 0, 0, "default", {"default",}},
  {PRI, "options_file_master_prob", 's', 0, 0, 0, "hiop_pridec_master.options", {}},
  {PRI, "print_options", 's', 0, 0, 0, "no", {"yes","no",}},
  {PRI, "tolerance", 'n', 1.0000000000000001e-05, 1e-14, 0.10000000000000001, "", {}},
  {PRI, "verbosity_level", 'i', 2, 0, 12, "", {}},
