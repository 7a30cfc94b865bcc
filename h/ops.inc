/* OP(name, operands, constraint, options, flags, preparation, call) */
#define LU2 FL(ARMAS_LOWER, ARMAS_UPPER)
#define T8 FL(ARMAS_LOWER, ARMAS_UPPER, ARMAS_LOWER|ARMAS_UNIT, ARMAS_UPPER|ARMAS_UNIT, ARMAS_LOWER|ARMAS_TRANS, ARMAS_UPPER|ARMAS_TRANS, ARMAS_LOWER|ARMAS_TRANS|ARMAS_UNIT, ARMAS_UPPER|ARMAS_TRANS|ARMAS_UNIT)
#define NT FL(0, ARMAS_TRANS)
OP(dot, "vm vm", 0, SC|EX, FL(0), 0, (o->s[0] = armas_dot(X0, X1, CF), 0))
OP(adot, "vm vm", 0, EX, FL(0), 0, armas_adot(&o->s[0], 2.0, X0, X1, CF))
OP(axpy, "wm vm", 0, EX, FL(0), 0, armas_axpy(X0, 2.0, X1, CF))
OP(axpby, "wm vm", 0, EX, FL(0), 0, armas_axpby(3.0, X0, 2.0, X1, CF))
OP(copy, "wm vm", 0, EX, FL(0), 0, armas_copy(X0, X1, CF))
OP(swap, "wm wm", 0, EX, FL(0), 0, armas_swap(X0, X1, CF))
OP(scale, "wm", 0, EX, FL(0), 0, armas_scale(X0, 3.0, CF))
OP(nrm2, "vm", 0, SC, FL(0), 0, (o->s[0] = armas_nrm2(X0, CF), 0))
OP(asum, "vm", 0, SC|EX, FL(0), 0, (o->s[0] = armas_asum(X0, CF), 0))
OP(amax, "vm", 0, SC|EX, FL(0), 0, (o->s[0] = armas_amax(X0, CF), 0))
OP(iamax, "vm", 0, SC|EX, FL(0), 0, (o->s[0] = armas_iamax(X0, CF), 0))
OP(mnorm, "imn", 0, SC, FL(ARMAS_NORM_ONE, ARMAS_NORM_INF, ARMAS_NORM_FRB), 0, (o->s[0] = armas_mnorm(X0, o->fl, CF), 0))
OP(mcopy, "omn imn", 0, EX, FL(0), 0, armas_mcopy(X0, X1, 0, CF))
OP(mcopy_t, "omn inm", 0, EX, FL(ARMAS_TRANS), 0, armas_mcopy(X0, X1, o->fl, CF))
OP(madd, "omn", 0, EX, FL(0, ARMAS_UPPER, ARMAS_LOWER), 0, armas_madd(X0, 2.0, o->fl, CF))
OP(mscale, "omn", 0, EX, FL(0, ARMAS_UPPER, ARMAS_LOWER), 0, armas_mscale(X0, 2.0, o->fl, CF))
OP(mplus, "omn imn", 0, EX, FL(0), 0, armas_mplus(2.0, X0, 3.0, X1, 0, CF))
OP(mplus_t, "omn inm", 0, EX, FL(ARMAS_TRANSB), 0, armas_mplus(2.0, X0, 3.0, X1, o->fl, CF))
OP(mult_diag_l, "omn vm", 0, EX, FL(ARMAS_LEFT), 0, armas_mult_diag(X0, 2.0, X1, o->fl, CF))
OP(mult_diag_r, "omn vn", 0, EX, FL(ARMAS_RIGHT), 0, armas_mult_diag(X0, 2.0, X1, o->fl, CF))
OP(solve_diag_l, "omn vm", 0, NZ(1), FL(ARMAS_LEFT), 0, armas_solve_diag(X0, 2.0, X1, o->fl, CF))
OP(solve_diag_r, "omn vn", 0, NZ(1), FL(ARMAS_RIGHT), 0, armas_solve_diag(X0, 2.0, X1, o->fl, CF))
#define B2(P, E) \
OP(P##mvmult, "wm imn vn", 0, E, FL(0), 0, armas_##P##mvmult(3.0, X0, 2.0, X1, X2, 0, CF)) \
OP(P##mvmult_t, "wm inm vn", 0, E, FL(ARMAS_TRANS), 0, armas_##P##mvmult(3.0, X0, 2.0, X1, X2, o->fl, CF)) \
OP(P##mvupdate, "omn vm vn", 0, E, FL(0), 0, armas_##P##mvupdate(3.0, X0, 2.0, X1, X2, CF)) \
OP(P##mvmult_sym, "wn inn vn", 0, E|TRI(1), LU2, 0, armas_##P##mvmult_sym(3.0, X0, 2.0, X1, X2, o->fl, CF)) \
OP(P##mvupdate_sym, "onn vn", 0, E|TRI(0), LU2, 0, armas_##P##mvupdate_sym(3.0, X0, 2.0, X1, o->fl, CF)) \
OP(P##mvupdate2_sym, "onn vn vn", 0, E|TRI(0), LU2, 0, armas_##P##mvupdate2_sym(3.0, X0, 2.0, X1, X2, o->fl, CF)) \
OP(P##mvmult_trm, "wn inn", 0, E|TRI(1), T8, 0, armas_##P##mvmult_trm(X0, 2.0, X1, o->fl, CF)) \
OP(P##mult, "omn imk ikn", 0, E, FL(0), 0, armas_##P##mult(3.0, X0, 2.0, X1, X2, 0, CF)) \
OP(P##mult_ta, "omn ikm ikn", 0, E, FL(ARMAS_TRANSA), 0, armas_##P##mult(3.0, X0, 2.0, X1, X2, o->fl, CF)) \
OP(P##mult_tb, "omn imk ink", 0, E, FL(ARMAS_TRANSB), 0, armas_##P##mult(3.0, X0, 2.0, X1, X2, o->fl, CF)) \
OP(P##mult_tt, "omn ikm ink", 0, E, FL(ARMAS_TRANSA|ARMAS_TRANSB), 0, armas_##P##mult(3.0, X0, 2.0, X1, X2, o->fl, CF)) \
OP(P##mult_sym_l, "omn imm imn", 0, E|TRI(1), FL(ARMAS_LEFT|ARMAS_LOWER, ARMAS_LEFT|ARMAS_UPPER), 0, armas_##P##mult_sym(3.0, X0, 2.0, X1, X2, o->fl, CF)) \
OP(P##mult_sym_r, "omn inn imn", 0, E|TRI(1), FL(ARMAS_RIGHT|ARMAS_LOWER, ARMAS_RIGHT|ARMAS_UPPER), 0, armas_##P##mult_sym(3.0, X0, 2.0, X1, X2, o->fl, CF)) \
OP(P##mult_trm_l, "omn imm", 0, E|TRI(1), T8, 0, armas_##P##mult_trm(X0, 2.0, X1, o->fl|ARMAS_LEFT, CF)) \
OP(P##mult_trm_r, "omn inn", 0, E|TRI(1), T8, 0, armas_##P##mult_trm(X0, 2.0, X1, o->fl|ARMAS_RIGHT, CF))
B2(, EX)
OP(mvupdate_trm, "omn vm vn", 0, EX, LU2, 0, armas_mvupdate_trm(3.0, X0, 2.0, X1, X2, o->fl, CF))
OP(update_trm, "omn imk ikn", 0, EX, LU2, 0, armas_update_trm(3.0, X0, 2.0, X1, X2, o->fl, CF))
OP(update_trm_ta, "omn ikm ikn", 0, EX, FL(ARMAS_LOWER|ARMAS_TRANSA, ARMAS_UPPER|ARMAS_TRANSA), 0, armas_update_trm(3.0, X0, 2.0, X1, X2, o->fl, CF))
OP(update_trm_tb, "omn imk ink", 0, EX, FL(ARMAS_LOWER|ARMAS_TRANSB, ARMAS_UPPER|ARMAS_TRANSB), 0, armas_update_trm(3.0, X0, 2.0, X1, X2, o->fl, CF))
B2(ext_, EX|XT)
OP(mvsolve_trm, "wn inn", 0, TRI(1), T8, 0, armas_mvsolve_trm(X0, 2.0, X1, o->fl, CF))
OP(solve_trm_l, "omn imm", 0, TRI(1), T8, 0, armas_solve_trm(X0, 2.0, X1, o->fl|ARMAS_LEFT, CF))
OP(solve_trm_r, "omn inn", 0, TRI(1), T8, 0, armas_solve_trm(X0, 2.0, X1, o->fl|ARMAS_RIGHT, CF))
OP(update_sym, "onn ink", 0, EX|TRI(0), LU2, 0, armas_update_sym(3.0, X0, 2.0, X1, o->fl, CF))
OP(update_sym_t, "onn ikn", 0, EX|TRI(0), FL(ARMAS_LOWER|ARMAS_TRANS, ARMAS_UPPER|ARMAS_TRANS), 0, armas_update_sym(3.0, X0, 2.0, X1, o->fl, CF))
OP(update2_sym, "onn ink ink", 0, EX|TRI(0), LU2, 0, armas_update2_sym(3.0, X0, 2.0, X1, X2, o->fl, CF))
OP(update2_sym_t, "onn ikn ikn", 0, EX|TRI(0), FL(ARMAS_LOWER|ARMAS_TRANS, ARMAS_UPPER|ARMAS_TRANS), 0, armas_update2_sym(3.0, X0, 2.0, X1, X2, o->fl, CF))
OP(ext_adot, "vm vm", 0, EX|XT, FL(0), 0, armas_ext_adot(&o->s[0], 2.0, X0, X1, CF))
OP(ext_axpby, "wm vm", 0, EX|XT, FL(0), 0, armas_ext_axpby(3.0, X0, 2.0, X1, CF))
OP(ext_mvsolve_trm, "wn inn", 0, W|TRI(1)|XT, T8, 0, WF(armas_ext_mvsolve_trm, X0, 2.0, X1, o->fl))
OP(ext_solve_trm_l, "omn imm", 0, W|TRI(1)|XT, T8, 0, WF(armas_ext_solve_trm, X0, 2.0, X1, o->fl|ARMAS_LEFT))
OP(ext_solve_trm_r, "omn inn", 0, W|TRI(1)|XT, T8, 0, WF(armas_ext_solve_trm, X0, 2.0, X1, o->fl|ARMAS_RIGHT))
/* factorisations */
OP(lufactor, "omn Ps+", 0, RND|LA, FL(0), 0, armas_lufactor(X0, PV, CF))
OP(lusolve, "onk inn pn", 0, RND|LA, NT, p_lu, armas_lusolve(X0, X1, PV, o->fl, CF))
OP(luinverse, "onn pn", 0, W|RND|LA, FL(0), p_lu0, WF(armas_luinverse, X0, PV))
OP(cholesky, "onn", 0, TRI(0)|LA, LU2, 0, armas_cholesky(X0, o->fl, CF))
OP(cholsolve, "onk inn", 0, TRI(1)|LA, LU2, p_chol, armas_cholsolve(X0, X1, ARMAS_NOPIVOT, o->fl, CF))
OP(cholfactor_p, "onn Pn", 0, W|TRI(0)|LA, LU2, 0, WF(armas_cholfactor, X0, PV, o->fl))
OP(cholsolve_p, "onk inn pn", 0, TRI(1)|LA, LU2, p_cholp, armas_cholsolve(X0, X1, PV, o->fl, CF))
OP(cholupdate, "onn wn", 0, TRI(0)|LA, LU2, p_chol0, armas_cholupdate(X0, X1, o->fl, CF))
OP(cholinverse, "onn", 0, W|TRI(0)|LA, LU2, p_chol0, WF(armas_cholinverse, X0, o->fl))
OP(bkfactor, "onn Pn", 0, W|TRI(0)|RND|LA, LU2, 0, WF(armas_bkfactor, X0, PV, o->fl))
OP(bksolve, "onk inn pn", 0, W|TRI(1)|RND|LA, LU2, p_bk, WF(armas_bksolve, X0, X1, PV, o->fl))
OP(ldlfactor, "onn Pn", 0, W|TRI(0)|LA, LU2, 0, WF(armas_ldlfactor, X0, PV, o->fl))
OP(ldlsolve, "onk inn pn", 0, TRI(1)|LA, LU2, p_ldl, armas_ldlsolve(X0, X1, PV, o->fl, CF))
OP(ldlinverse, "onn pn", 0, W|TRI(0)|LA, LU2, p_ldl0, WF(armas_ldlinverse, X0, PV, o->fl))
OP(inverse_trm, "onn", 0, TRI(0)|LA, FL(ARMAS_LOWER, ARMAS_UPPER, ARMAS_LOWER|ARMAS_UNIT, ARMAS_UPPER|ARMAS_UNIT), 0, armas_inverse_trm(X0, o->fl, CF))
#define QF(P, C, L) \
OP(P##factor, "omn T" L "+", C, W|RND|LA, FL(0), 0, WF(armas_##P##factor, X0, X1)) \
OP(P##build, "omn t" L, C, W|RND|LA, FL(0), p_##P##0, WF(armas_##P##build, X0, X1, armas_size(X1))) \
OP(P##build_k1, "omn t" L, C, W|RND|LA, FL(0), p_##P##0, WF(armas_##P##build, X0, X1, NK(X1, 1))) \
OP(P##build_k2, "omn t" L, C, W|RND|LA, FL(0), p_##P##0, WF(armas_##P##build, X0, X1, NK(X1, 2)))
QF(qr, 'g', "n") QF(lq, 'l', "m") QF(ql, 'g', "n") QF(rq, 'l', "m")
OP(qrmult_l, "omk imn tn", 'g', W|RND|LA, NT, p_qr, WF(armas_qrmult, X0, X1, X2, o->fl|ARMAS_LEFT))
OP(qrmult_r, "okm imn tn", 'g', W|RND|LA, NT, p_qr, WF(armas_qrmult, X0, X1, X2, o->fl|ARMAS_RIGHT))
OP(qlmult_l, "omk imn tn", 'g', W|RND|LA, NT, p_ql, WF(armas_qlmult, X0, X1, X2, o->fl|ARMAS_LEFT))
OP(qlmult_r, "okm imn tn", 'g', W|RND|LA, NT, p_ql, WF(armas_qlmult, X0, X1, X2, o->fl|ARMAS_RIGHT))
OP(lqmult_l, "onk imn tm", 'l', W|RND|LA, NT, p_lq, WF(armas_lqmult, X0, X1, X2, o->fl|ARMAS_LEFT))
OP(lqmult_r, "okn imn tm", 'l', W|RND|LA, NT, p_lq, WF(armas_lqmult, X0, X1, X2, o->fl|ARMAS_RIGHT))
OP(rqmult_l, "onk imn tm", 'l', W|RND|LA, NT, p_rq, WF(armas_rqmult, X0, X1, X2, o->fl|ARMAS_LEFT))
OP(rqmult_r, "okn imn tm", 'l', W|RND|LA, NT, p_rq, WF(armas_rqmult, X0, X1, X2, o->fl|ARMAS_RIGHT))
OP(qrreflector, "onn+ imn tn", 'g', RND|LA, FL(0), p_qr, armas_qrreflector(X0, X1, X2, CF))
OP(qlreflector, "onn+ imn tn", 'g', RND|LA, FL(0), p_ql, armas_qlreflector(X0, X1, X2, CF))
OP(lqreflector, "omm+ imn tm", 'l', RND|LA, FL(0), p_lq, armas_lqreflector(X0, X1, X2, CF))
OP(rqreflector, "omm+ imn tm", 'l', RND|LA, FL(0), p_rq, armas_rqreflector(X0, X1, X2, CF))
OP(qrsolve, "omk imn tn", 'g', W|RND|LA, NT, p_qr, WF(armas_qrsolve, X0, X1, X2, o->fl))
OP(lqsolve, "onk imn tm", 'l', W|RND|LA, NT, p_lq, WF(armas_lqsolve, X0, X1, X2, o->fl))
OP(qrtfactor, "omn okn+", 'g', W|RND|LA|M(1), FL(0), 0, WF(armas_qrtfactor, X0, X1))
/* reductions */
OP(bdreduce, "omn Ts~ Ts~", 0, W|RND|LA, FL(0), 0, WF(armas_bdreduce, X0, X1, X2))
OP(bdmult_ql, "omk imn ts~", 'g', W|RND|LA, NT, p_bdq, WF(armas_bdmult, X0, X1, X2, o->fl|ARMAS_MULTQ|ARMAS_LEFT))
OP(bdmult_qr, "okm imn ts~", 'g', W|RND|LA, NT, p_bdq, WF(armas_bdmult, X0, X1, X2, o->fl|ARMAS_MULTQ|ARMAS_RIGHT))
OP(bdmult_pl, "onk imn ts~", 0, W|RND|LA, NT, p_bdp, WF(armas_bdmult, X0, X1, X2, o->fl|ARMAS_MULTP|ARMAS_LEFT))
OP(bdmult_pr, "okn imn ts~", 0, W|RND|LA, NT, p_bdp, WF(armas_bdmult, X0, X1, X2, o->fl|ARMAS_MULTP|ARMAS_RIGHT))
OP(bdbuild_q, "omn ts~", 'g', W|RND|LA, FL(0), p_bdq0, WF(armas_bdbuild, X0, X1, X0 ? X0->cols : 1, ARMAS_WANTQ))
OP(hessreduce, "onn Ta", 'h', W|RND|LA, FL(0), 0, WF(armas_hessreduce, X0, X1))
OP(hessmult_l, "onk inn ta+", 'h', W|RND|LA, NT, p_hess, WF(armas_hessmult, X0, X1, X2, o->fl|ARMAS_LEFT))
OP(hessmult_r, "okn inn ta+", 'h', W|RND|LA, NT, p_hess, WF(armas_hessmult, X0, X1, X2, o->fl|ARMAS_RIGHT))
OP(trdreduce, "onn Tn", 0, W|RND|LA|TRI(0), LU2, 0, WF(armas_trdreduce, X0, X1, o->fl))
OP(trdmult_l, "onk inn tn", 0, W|RND|LA|TRI(1), FL(ARMAS_LOWER, ARMAS_UPPER, ARMAS_LOWER|ARMAS_TRANS, ARMAS_UPPER|ARMAS_TRANS), p_trd, WF(armas_trdmult, X0, X1, X2, o->fl|ARMAS_LEFT))
OP(trdmult_r, "okn inn tn", 0, W|RND|LA|TRI(1), FL(ARMAS_LOWER, ARMAS_UPPER, ARMAS_LOWER|ARMAS_TRANS, ARMAS_UPPER|ARMAS_TRANS), p_trd, WF(armas_trdmult, X0, X1, X2, o->fl|ARMAS_RIGHT))
OP(trdbuild, "onn tn", 0, W|RND|LA, LU2, p_trd0, WF(armas_trdbuild, X0, X1, X0 ? X0->cols : 1, o->fl))
/* spectral */
OP(svd, "wn+ omn", 'g', W|RND|LA|M(1), FL(0), 0, WF(armas_svd, X0, 0, 0, X1, 0))
OP(svd_w, "wm+ omn", 'l', W|RND|LA|M(1), FL(0), 0, WF(armas_svd, X0, 0, 0, X1, 0))
OP(bdsvd, "wn wa", 'h', W|RND|LA|M(1), LU2, 0, WF(armas_bdsvd, X0, X1, 0, 0, o->fl))
OP(bdsvd_uv, "wn wa okn+ onm+", 'h', W|RND|LA|M(1)|M(2)|M(3), LU2, 0, WF(armas_bdsvd, X0, X1, X2, X3, o->fl|ARMAS_WANTU|ARMAS_WANTV))
OP(dqds, "wn wa", 'h', W|RND|LA|NN|M(1), FL(0), 0, WF(armas_dqds, X0, X1))
OP(bdsvd_u, "wn wa okn+", 'h', W|RND|LA|M(1)|M(2), LU2, 0, WF(armas_bdsvd, X0, X1, X2, 0, o->fl|ARMAS_WANTU))
OP(bdsvd_v, "wn wa onm+", 'h', W|RND|LA|M(1)|M(2), LU2, 0, WF(armas_bdsvd, X0, X1, 0, X2, o->fl|ARMAS_WANTV))
OP(svd_u, "wn+ omn omn", 'g', W|RND|LA|M(1)|M(2), FL(ARMAS_WANTU), 0, WF(armas_svd, X0, X1, 0, X2, o->fl))
OP(svd_U, "wn+ omm omn", 'g', W|RND|LA|M(1)|M(2), FL(ARMAS_WANTU), 0, WF(armas_svd, X0, X1, 0, X2, o->fl))
OP(svd_v, "wn+ onn omn", 'g', W|RND|LA|M(1)|M(2), FL(ARMAS_WANTV), 0, WF(armas_svd, X0, 0, X1, X2, o->fl))
OP(svd_uv, "wn+ omn onn omn", 'g', W|RND|LA|M(1)|M(2)|M(3), FL(ARMAS_WANTU|ARMAS_WANTV), 0, WF(armas_svd, X0, X1, X2, X3, o->fl))
OP(svdw_u, "wm+ omm omn", 'l', W|RND|LA|M(1)|M(2), FL(ARMAS_WANTU), 0, WF(armas_svd, X0, X1, 0, X2, o->fl))
OP(svdw_v, "wm+ omn omn", 'l', W|RND|LA|M(1)|M(2), FL(ARMAS_WANTV), 0, WF(armas_svd, X0, 0, X1, X2, o->fl))
OP(svdw_V, "wm+ onn omn", 'l', W|RND|LA|M(1)|M(2), FL(ARMAS_WANTV), 0, WF(armas_svd, X0, 0, X1, X2, o->fl))
OP(svdw_uv, "wm+ omm omn omn", 'l', W|RND|LA|M(1)|M(2)|M(3), FL(ARMAS_WANTU|ARMAS_WANTV), 0, WF(armas_svd, X0, X1, X2, X3, o->fl))
OP(trdeigen, "wn wa", 'h', W|RND|LA|M(1), FL(0), 0, WF(armas_trdeigen, X0, X1, 0, 0))
OP(trdeigen_v, "wn wa onn", 'h', W|RND|LA|M(1)|M(2), FL(0), 0, WF(armas_trdeigen, X0, X1, X2, ARMAS_WANTV))
OP(eigen_sym, "wn onn", 0, W|RND|LA|M(1), FL(ARMAS_LOWER, ARMAS_UPPER, ARMAS_LOWER|ARMAS_WANTV, ARMAS_UPPER|ARMAS_WANTV), 0, WF(armas_eigen_sym, X0, X1, o->fl))
OP(trdsec_solve, "wn vn vn wn", 0, LA, FL(0), p_sec1, armas_trdsec_solve(X0, X1, X2, X3, 0.75, CF))
OP(trdsec_solve_vec, "wn wn onn vn vn", 0, LA, FL(0), p_sec3, armas_trdsec_solve_vec(X0, X1, X2, X3, X4, 0.75, CF))
/* transformations */
OP(houseapply_l, "onm i11? va xm+", 'h', LA|RND, FL(ARMAS_LEFT), 0, armas_houseapply(X0, X1, X2, X3, o->fl, CF))
OP(houseapply_r, "omn i11? va xm+", 'h', LA|RND, FL(ARMAS_RIGHT), 0, armas_houseapply(X0, X1, X2, X3, o->fl, CF))
OP(houseapply2_l, "wn omn i11 vm xn+", 0, LA|RND, FL(ARMAS_LEFT), 0, armas_houseapply2x1(X0, X1, X2, X3, X4, o->fl, CF))
OP(houseapply2_r, "wm omn i11 vn xm+", 0, LA|RND, FL(ARMAS_RIGHT), 0, armas_houseapply2x1(X0, X1, X2, X3, X4, o->fl, CF))
OP(housemult_l, "omk tn imn", 'g', W|LA|RND, FL(0, ARMAS_TRANS), p_hm, WF(armas_housemult, X0, X1, X2, o->fl|ARMAS_UNIT|ARMAS_LEFT))
OP(housemult_r, "okm tn imn", 'g', W|LA|RND, FL(0, ARMAS_TRANS), p_hm, WF(armas_housemult, X0, X1, X2, o->fl|ARMAS_UNIT|ARMAS_RIGHT))
OP(bdbuild_p, "omn ts~", 0, W|RND|LA, FL(0), p_bdp0, WF(armas_bdbuild, X0, X1, X0 ? X0->cols < X0->rows ? X0->cols : X0->rows : 1, ARMAS_WANTP))
OP(eigen_all, "wn+ onn", 0, W|RND|LA|M(1), LU2, 0, WF(armas_eigen_sym_selected, X0, X1, ARMAS_EIGEN_ALL, o->fl))
OP(eigen_one, "w1+ onn", 0, W|RND|LA|M(1), LU2, 0, WF(armas_eigen_sym_selected, X0, X1, ARMAS_EIGEN_INT(0, 1), o->fl))
OP(trdbisect, "wn vn va", 'h', RND|LA, FL(0), 0, armas_trdbisect(X0, X1, X2, ARMAS_EIGEN_ALL, CF))
OP(house, "o11? wm o11?", 0, RND|LA, FL(0, ARMAS_NONNEG), 0, armas_house(X0, X1, X2, o->fl, CF))
OP(hhouse_l, "i11? vm wn omn xn+", 0, LA|RND, FL(ARMAS_LEFT), 0, armas_hhouse_apply(X0, X1, X2, X3, X4, o->fl, CF))
OP(hhouse_r, "i11? vn wm omn xm+", 0, LA|RND, FL(ARMAS_RIGHT), 0, armas_hhouse_apply(X0, X1, X2, X3, X4, o->fl, CF))
OP(mult_rbt_l, "omn imk", 0, RND|LA, FL(ARMAS_LEFT, ARMAS_LEFT|ARMAS_TRANS), 0, armas_mult_rbt(X0, X1, o->fl, CF))
OP(mult_rbt_r, "omn ink", 0, RND|LA, FL(ARMAS_RIGHT, ARMAS_RIGHT|ARMAS_TRANS), 0, armas_mult_rbt(X0, X1, o->fl, CF))
OP(update2_rbt, "onn ink+ ink+", 0, RND|LA, FL(0), 0, armas_update2_rbt(X0, X1, X2, CF))
#define UL5 FL(0, ARMAS_UPPER, ARMAS_LOWER, ARMAS_UPPER|ARMAS_UNIT, ARMAS_LOWER|ARMAS_UNIT)
OP(set_values, "omn", 0, EX|NOCF, UL5, 0, armas_set_values(X0, val_ij, o->fl))
OP(set_all, "omn", 0, EX|NOCF, UL5, 0, armas_set_all(X0, val_3, o->fl))
OP(make_trm, "omn", 0, EX|NOCF, FL(ARMAS_UPPER, ARMAS_LOWER, ARMAS_UPPER|ARMAS_UNIT, ARMAS_LOWER|ARMAS_UNIT), 0, (armas_make_trm(X0, o->fl), 0))
OP(apply, "omn", 0, EX|NOCF, UL5, 0, armas_apply(X0, fun_1, o->fl))
OP(apply2, "omn", 0, EX|NOCF, UL5, 0, armas_apply2(X0, fun_2, (DTYPE[]){5}, o->fl))
OP(iterate, "imn", 0, EX|NOCF|SC, UL5, 0, (o->s[0] = 0, armas_iterate(X0, sum_it, &o->s[0], o->fl)))
OP(scale_to, "omn", 0, EX|NOCF, FL(0), 0, armas_scale_to(X0, 2.0, 6.0, o->fl, CF))
OP(gvleft, "omn", 0, RND|NOCF, FL(0), 0, (X0->rows > 1 ? armas_gvleft(X0, 0.6, 0.8, X0->rows - 2, X0->rows - 1, 0, X0->cols) : (void)0, 0))
OP(gvright, "omn", 0, RND|NOCF, FL(0), 0, (X0->cols > 1 ? armas_gvright(X0, 0.6, 0.8, X0->cols - 2, X0->cols - 1, 0, X0->rows) : (void)0, 0))
OP(gvrot_vec, "wm wm", 0, RND|NOCF, FL(0), 0, armas_gvrot_vec(X0, X1, 0.6, 0.8))
OP(gvupdate_l, "omn vm vm", 0, RND|NOCF, FL(ARMAS_LEFT, ARMAS_LEFT|ARMAS_BACKWARD), 0, armas_gvupdate(X0, 0, X1, X2, X0->rows - 1, o->fl))
OP(gvupdate_r, "omn vn vn", 0, RND|NOCF, FL(ARMAS_RIGHT, ARMAS_RIGHT|ARMAS_BACKWARD), 0, armas_gvupdate(X0, 0, X1, X2, X0->cols - 1, o->fl))
OP(sort_vec, "wn", 0, EX|NOCF, FL(ARMAS_ASC, ARMAS_DESC), 0, (armas_sort_vec(X0, o->fl), 0))
OP(qsort_vec, "wn", 0, EX|NOCF, FL(ARMAS_ASC, ARMAS_DESC), 0, armas_qsort_vec(X0, o->fl))
OP(abs_sort_vec, "wn", 0, RND|NOCF, FL(ARMAS_ASC, ARMAS_DESC), 0, (armas_abs_sort_vec(X0, o->fl), 0))
OP(sort_eigenvec, "wn omn onk", 0, RND|NOCF, FL(ARMAS_ASC, ARMAS_DESC), 0, armas_sort_eigenvec(X0, X1, X2, 0, o->fl))
OP(pivot_rows, "onn pn", 0, RND|NOCF, FL(ARMAS_PIVOT_FORWARD, ARMAS_PIVOT_BACKWARD), p_lu0, armas_pivot_rows(X0, PV, o->fl, CF))
OP(pivot_cols, "onn pn", 0, RND|NOCF, FL(ARMAS_PIVOT_FORWARD, ARMAS_PIVOT_BACKWARD), p_lu0, armas_pivot_cols(X0, PV, o->fl, CF))
OP(pivot_sym, "onn pn", 0, RND|TRI(0)|NOCF, FL(ARMAS_PIVOT_LOWER, ARMAS_PIVOT_UPPER), p_lu0, armas_pivot(X0, PV, o->fl|ARMAS_PIVOT_FORWARD, CF))
