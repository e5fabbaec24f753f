"""Small changes to /repo that each break one property. sweep.py applies them to a scratch copy and
runs the property's check. [(name, properties, [(file, old, new), ...])]; old must occur exactly once."""
PCD = "crates/ragu_pcd/src/"
H1 = PCD + "internal/native/circuits/hashes_1.rs"
H2 = PCD + "internal/native/circuits/hashes_2.rs"
IC = PCD + "internal/native/circuits/inner_collapse.rs"
OC = PCD + "internal/native/circuits/outer_collapse.rs"
CV = PCD + "internal/native/circuits/compute_v.rs"
FM = PCD + "fuse/mod.rs"
F8 = PCD + "fuse/_08_f.rs"
VF = PCD + "verify.rs"
PRE = PCD + "internal/native/stages/preamble.rs"
M = []
def m(name, props, *edits):
    M.append((name, props.split(), edits))

# --- C11: one check of the recursion less -----------------------------------
for s in ("left", "right"):
    m(f"h1_{s}_app_ky", "C11", (H1, f"            {s}_application_ky.enforce_equal(dr, &outer_error.{s}.application)?;\n", f"            let _ = &{s}_application_ky;\n"))
    m(f"h1_{s}_unified_ky", "C11", (H1, f"            {s}_unified_ky.enforce_equal(dr, &outer_error.{s}.unified)?;\n", f"            let _ = &{s}_unified_ky;\n"))
    m(f"h1_{s}_bridge_ky", "C11", (H1, f"            {s}_unified_bridge_ky.enforce_equal(dr, &outer_error.{s}.unified_bridge)?;\n", f"            let _ = &{s}_unified_bridge_ky;\n"))
    m(f"h1_{s}_root", "C11", (H1, f"""        preamble
            .{s}
            .circuit_id
            .enforce_root_of_unity(dr, self.log2_circuits)?;
""", ""))
m("h1_sponge", "C11", (H1, """                .expect("save_state should succeed after absorbing")
                .enforce_equal(dr, &outer_error.sponge_state)?;""", """                .expect("save_state should succeed after absorbing");"""))
m("ic_first_only", "C11", (IC, "        for (i, error_terms) in inner_error.error_terms.iter().enumerate() {", "        for (i, error_terms) in inner_error.error_terms.iter().enumerate().take(2) {"))
m("oc_none", "C11", (OC, """            preamble
                .is_base_case(dr)?
                .not(dr)
                .conditional_enforce_equal(dr, &witnessed_c, &computed_c)?;""", """            let _ = (&witnessed_c, &computed_c, &preamble);"""))
m("oc_or", "C11 C05 C06", (PRE, "        left_is_trivial.and(dr, &right_is_trivial)", "        let l = left_is_trivial.not(dr);\n        let r = right_is_trivial.not(dr);\n        Ok(l.and(dr, &r)?.not(dr))"))
m("trivial_left_only", "C11 C05 C06", (PRE, "        left_is_trivial.and(dr, &right_is_trivial)", "        left_is_trivial.and(dr, &left_is_trivial)"))
m("trivial_right_only", "C11 C05 C06", (PRE, "        left_is_trivial.and(dr, &right_is_trivial)", "        right_is_trivial.and(dr, &right_is_trivial)"))

# queries dropped from both sides
Q = [("left_p", "        (&eval.left.p_poly,        &preamble.left.unified.v,                     &d.left.u),\n",
      "            factor_iter(left.p.native.poly.iter_coeffs(), left.challenges.u),\n"),
     ("right_p", "        (&eval.right.p_poly,       &preamble.right.unified.v,                    &d.right.u),\n",
      "            factor_iter(right.p.native.poly.iter_coeffs(), right.challenges.u),\n"),
     ("left_xy", "        (&eval.left.registry_xy_poly,  &query.left.child_registry_xy_at_current_w,       &d.challenges.w),\n",
      "            factor_iter(left.query.native.registry_xy_poly.iter_coeffs(), w),\n"),
     ("right_xy", "        (&eval.right.registry_xy_poly, &query.right.child_registry_xy_at_current_w,      &d.challenges.w),\n",
      "            factor_iter(right.query.native.registry_xy_poly.iter_coeffs(), w),\n"),
     ("left_wx_y", "        (&eval.registry_wx0,           &query.left.child_registry_xy_at_current_w,       &d.left.y),\n",
      """            factor_iter(
                s_prime.native.registry_wx0_poly.iter_coeffs(),
                left.challenges.y,
            ),
"""),
     ("right_wx_cur_y", "        (&eval.registry_wx1,           &query.right.current_registry_wy_at_child_x,      &d.challenges.y),\n",
      "            factor_iter(s_prime.native.registry_wx1_poly.iter_coeffs(), y),\n"),
     ("wy_left_x", "        (&eval.registry_wy,            &query.left.current_registry_wy_at_child_x,       &d.left.x),\n",
      """            factor_iter(
                inner_error.native.registry_wy_poly.iter_coeffs(),
                left.challenges.x,
            ),
"""),
     ("wy_x", "        (&eval.registry_wy,            &query.registry_wxy,                              &d.challenges.x),\n",
      "            factor_iter(inner_error.native.registry_wy_poly.iter_coeffs(), x),\n"),
     ("xy_w", "        (&eval.registry_xy,            &query.registry_wxy,                              &d.challenges.w),\n",
      "            factor_iter(query.native.registry_xy_poly.iter_coeffs(), w),\n"),
     ("xy_left_id", "        (&eval.registry_xy,            &query.left.current_registry_xy_at_child_circuit_id,  &d.left.circuit_id),\n",
      """            factor_iter(
                query.native.registry_xy_poly.iter_coeffs(),
                left.application.circuit_id.omega_j(),
            ),
"""),
     ("left_a", "        (&eval.left.a_poly,        &query.left.a_poly_at_xz,                         &d.challenges.xz),\n",
      "            factor_iter(left.ab.native.a_poly.iter_coeffs(), xz),\n"),
     ("right_b", "        (&eval.right.b_poly,       &query.right.b_poly_at_x,                         &d.challenges.x),\n",
      "            factor_iter(right.ab.native.b_poly.iter_coeffs(), x),\n"),
     ("cur_a", "        (&eval.a_poly,             computed_ax,                                      &d.challenges.xz),\n",
      "            factor_iter(ab.native.a_poly.iter_coeffs(), xz),\n"),
     ("cur_b", "        (&eval.b_poly,             computed_bx,                                      &d.challenges.x),\n",
      "            factor_iter(ab.native.b_poly.iter_coeffs(), x),\n")]
for n, c, f in Q:
    m("q_" + n, "C11", (CV, c, ""), (F8, f, ""))
m("q_rx_last", "C11", (CV, "            RxIndex::ALL.iter().map(move |&id|", "            RxIndex::ALL[..RxIndex::ALL.len() - 1].iter().map(move |&id|"),
  (F8, "            for &id in &RxIndex::ALL {", "            for &id in &RxIndex::ALL[..RxIndex::ALL.len() - 1] {"))
m("q_internal_last", "C11", (CV, "    .chain(InternalCircuitIndex::ALL.iter().map(|&id| {", "    .chain(InternalCircuitIndex::ALL[1..].iter().map(|&id| {"),
  (F8, "        for &id in &native::InternalCircuitIndex::ALL {", "        for &id in &native::InternalCircuitIndex::ALL[1..] {"))

# what a stage says not heard
for n, c in (("outer_error", ""), ("ab", ""), ("query", ""), ("f", ""), ("eval", "")):
    m(f"unheard_{n}", "C11", (H2, f"            bridge_{n}_commitment.write(dr, &mut transcript)?;\n", f"            ragu_primitives::Element::one().write(dr, &mut transcript)?;\n            let _ = bridge_{n}_commitment;\n"),
      (FM, f"        {n}_commitment.write(&mut dr, &mut transcript)?;\n", f"        ragu_primitives::Element::one().write(&mut dr, &mut transcript)?;\n        let _ = {n}_commitment;\n"))
for n in ("preamble", "s_prime", "inner_error"):
    m(f"unheard_{n}", "C11", (H1, f"            bridge_{n}_commitment.write(dr, &mut transcript)?;\n", f"            ragu_primitives::Element::one().write(dr, &mut transcript)?;\n            let _ = bridge_{n}_commitment;\n"),
      (FM, f"        {n}_commitment.write(&mut dr, &mut transcript)?;\n", f"        ragu_primitives::Element::one().write(&mut dr, &mut transcript)?;\n        let _ = {n}_commitment;\n"))
# the verifier forgets
m("v_xy", "C11 C05", (VF, "            && registry_xy_claim)", "            && (registry_xy_claim || true))"))
m("v_eval", "C11 C05", (VF, "            && p_eval_claim\n", "            && (p_eval_claim || true)\n"))
m("v_commit", "C11 C05", (VF, "            && p_commitment_claim\n", "            && (p_commitment_claim || true)\n"))
m("v_nested", "C11 C05", (VF, "            && nested_revdot_claims\n", "            && (nested_revdot_claims || true)\n"))
m("v_raw", "C11 C05", (VF, "                .all(|(ky, (a, b))| a.revdot(b) == ky)\n        };\n\n        // ", "                .skip(1).all(|(ky, (a, b))| a.revdot(b) == ky)\n        };\n\n        // "))

# --- C13/C14: the in-circuit types -------------------------------------------
PR = "crates/ragu_primitives/src/"
BO, EL, PT, EN, PO = (PR + f"{x}.rs" for x in ("boolean", "element", "point", "endoscalar", "poseidon"))
m("g_bool_ab", "C13", (BO, "        dr.enforce_equal(&a, &b)?;\n\n        // Enforce a = c", "        // Enforce a = c"))
m("g_bool_ac", "C13", (BO, "        dr.enforce_equal(&a, &c)?;\n", ""))
m("g_and_b", "C13", (BO, "        dr.enforce_equal(&b, other.wire())?;\n\n        Ok(Boolean {\n            value: result,", "        Ok(Boolean {\n            value: result,"))
m("g_iszero_prod", "C13", (BO, "    dr.enforce_zero(|lc| lc.add(&zero_product))?;\n", "    let _ = &zero_product;\n"))
m("g_iszero_x2", "C13", (BO, "    dr.enforce_equal(&x_wire, x.wire())?;\n    dr.enforce_zero(|lc| lc.add(&is_not_zero)", "    let _ = &x_wire;\n    dr.enforce_zero(|lc| lc.add(&is_not_zero)"))
m("g_pack_order", "C14", (BO, "                lc = lc.add(bit.wire());\n                lc = lc.gain(Coeff::Two);", "                lc = lc.gain(Coeff::Two);\n                lc = lc.add(bit.wire());"))
m("g_pack_chunk", "C14", (BO, "    for chunk in bits.chunks(capacity) {", "    for chunk in bits.chunks(capacity + 1) {"))
m("g_condeq", "C13", (BO, "        let diff = a.sub(dr, b);\n        let product = self.element().mul(dr, &diff)?;\n        product.enforce_zero(dr)", "        let diff = a.sub(dr, b);\n        let product = self.element().mul(dr, &diff)?.mul(dr, &diff)?.sub(dr, &diff);\n        product.mul(dr, &self.element())?.mul(dr, &diff)?.enforce_zero(dr)"))
m("g_bool_consistent", "C13 C14", (BO, "        Self::alloc(dr, self.value())?.enforce_equal(dr, self)", "        Self::alloc(dr, self.value()).map(|_| ())"))
m("g_sq", "C13", (EL, "        dr.enforce_equal(&a, &b)?;\n\n        Ok((\n", "        Ok((\n"))
m("g_mul_b", "C13", (EL, "        dr.enforce_equal(&b, other.wire())?;\n", "        if !core::ptr::eq(self, other) {\n            dr.enforce_equal(&b, other.wire())?;\n        }\n"))
m("g_inv", "C13", (EL, "        dr.enforce_equal(&c, &D::ONE)?;\n", "        let _ = &c;\n"))
m("g_div_den", "C13", (EL, "        dr.enforce_equal(by.wire(), &denominator)?;\n", "        let _ = &denominator;\n"))
m("g_root", "C13 C14", (EL, "        for _ in 0..k {\n            value = value.square(dr)?;", "        for _ in 0..k.max(1) {\n            value = value.square(dr)?;"))
m("g_fold", "C14", (EL, "        let Some(first) = iter.next() else {\n            return Ok(Element::zero(dr));", "        let Some(first) = iter.next() else {\n            return Ok(Element::one());"))
m("g_pt_curve", "C13", (PT, """        dr.enforce_zero(|lc| {
            lc.add(x3.wire())
                .add_term(&D::ONE, Coeff::Arbitrary(C::b()))
                .sub(y2.wire())
        })?;
""", "        let _ = (&x3, &y2);\n"))
m("g_pt_nonzero", "C13 C14", (PT, "            *nonzero = nonzero.mul(dr, &tmp)?;", "            let _ = nonzero.mul(dr, &tmp)?;"))
m("g_pt_consistent", "C13 C14", (PT, "        Self::alloc(dr, self.value())?.enforce_equal(dr, self)", "        Self::alloc(dr, self.value()).map(|_| ())"))
m("g_ex_eq", "C13", (EN, """                    .add_term(vb.wire(), coeff_3.into())
                    .sub(square.wire())
            })?;""", """                    .add_term(vb.wire(), coeff_3.into())
                    .add_term(square.wire(), if i == 77 { Coeff::Zero } else { Coeff::NegativeOne })
            })?;"""))
m("g_ex_const", "C14 C13", (EN, "            constant += D::F::ONE;\n", "            if i != 100 { constant += D::F::ONE; }\n"))
m("g_lift", "C14", (EN, "            acc = acc.add(dr, &ne);\n", "            let _ = &ne;\n            acc = acc.add(dr, &e).sub(dr, &e);\n"))
m("p_rate", "C12", (PO, "                if values.len() == P::RATE {", "                if values.len() == P::RATE + 1 {"))
m("p_absorb_keep", "C12", (PO, """                self.mode = Mode::Absorb {
                    values: vec![],
                    state: state.clone(),
                };
            }
            Mode::Absorb { values, .. } => {
                if values.len() == P::RATE {""", """                self.mode = Mode::Absorb {
                    values: vec![value.clone()],
                    state: state.clone(),
                };
            }
            Mode::Absorb { values, .. } => {
                if values.len() == P::RATE {"""))
m("p_resume_rate", "C12", (PO, """            mode: Mode::Squeeze {
                values: state.get_rate(),
                state,
            },""", """            mode: Mode::Squeeze {
                values: vec![],
                state,
            },"""))
m("p_save_nothing", "C12", (PO, "                if values.is_empty() {\n                    // Post condition of absorb", "                if false {\n                    // Post condition of absorb"))
m("p_squeeze_all", "C12", (PO, "self.values.iter().take(P::RATE).cloned().rev().collect()", "self.values.iter().cloned().rev().collect()"))
m("p_tr_len", "C12", (PCD + "internal/transcript.rs", "        let len_elem = Element::constant(dr, D::F::from(tag.len() as u64));", "        let len_elem = Element::constant(dr, D::F::from(tag.len().div_ceil(16) as u64));"))
m("p_tr_chunk", "C12", (PCD + "internal/transcript.rs", "u128::from_le_bytes(bytes)", "u128::from_be_bytes(bytes)"))
m("p_tr_squeezed", "C12", (PCD + "internal/transcript.rs", "            squeezed: false,", "            squeezed: true,"))
GA = "crates/ragu_core/src/gadgets/foreign.rs"
m("k_array_eq", "C13 C14", (GA, "            for (a, b) in a.iter().zip(b.iter()) {\n                G::enforce_equal_gadget", "            for (a, b) in a.iter().zip(b.iter()).take(2) {\n                G::enforce_equal_gadget"))
m("k_pair_eq", "C13 C14", (GA, "            G2::enforce_equal_gadget(dr, &a.1, &b.1)?;\n", ""))
m("k_pair_map", "C14 C13", (GA, "            Ok((G1::map_gadget(&this.0, wm)?, G2::map_gadget(&this.1, wm)?))", "            let y = G2::map_gadget(&this.1, wm)?;\n            Ok((G1::map_gadget(&this.0, wm)?, y))"))
m("k_box_eq", "C13 C14", (GA, "            G::enforce_equal_gadget(dr, a, b)\n", "            let _ = (dr, a, b);\n            Ok(())\n"))
DR = "crates/ragu_core/src/drivers.rs"
m("d_alloc", "C14", (DR, "        let (_, b, _) = self.mul(|| Ok((Coeff::Zero, value()?, Coeff::Zero)))?;\n        Ok(b)", "        let (a, _, _) = self.mul(|| Ok((Coeff::Zero, value()?, Coeff::Zero)))?;\n        Ok(a)"))
m("d_const", "C14", (DR, "        self.add(|lc| lc.add_term(&Self::ONE, value))", "        self.add(|lc| lc.add(&Self::ONE).gain(value))"))

CI = "crates/ragu_circuits/src/"
RG, FP, SX, SXY, SY, SC, TR, RW, MT = (CI + f for f in ("registry.rs", "floor_planner.rs", "s/sx.rs", "s/sxy.rs", "s/sy.rs", "s/common.rs", "trace.rs", "raw.rs", "metrics.rs"))
MK, BO, BU, ST, LB = (CI + f for f in ("staging/mask.rs", "staging/bonding.rs", "staging/builder.rs", "staging/mod.rs", "lib.rs"))
# registry views
m("r_keyx_pow", "C15", (RG, "let x_4n_minus_1 = x.pow_vartime([(4 * R::n() - 1) as u64]);", "let x_4n_minus_1 = x.pow_vartime([(4 * R::n() - 2) as u64]);"))
m("r_keyy_drop", "C15", (RG, "        if y != F::ZERO {\n            let y_4n", "        if y != F::ZERO && !matches!(self.cache, LagrangeCache::Empty) {\n            let y_4n"))
m("r_keyx_slot", "C15", (RG, "key_coeffs[R::num_coeffs() - 1] = key_coeff;", "key_coeffs[R::num_coeffs() - 2] = key_coeff;"))
m("r_key_xy0", "C15", (RG, "        coeffs[0] += key_scalar;", "        coeffs[1] += key_scalar;"))
m("r_key_direct", "C15", (RG, "        // Add the registry key contribution.\n        result + self.registry.key_sxy(x, y)", "        if let LagrangeCache::Direct(_) = self.cache {\n            return result;\n        }\n        result + self.registry.key_sxy(x, y)"))
m("r_zero", "C15", (RG, "        if x == F::ZERO || y == F::ZERO {\n            return F::ZERO;\n        }\n        let xy_4n", "        if x == F::ZERO || y == F::ZERO {\n            return self.key.value();\n        }\n        let xy_4n"))
m("r_lookup_last", "C15", (RG, "            omega_lookup.insert(omega_j, i);", "            if i + 1 < circuits.len() || i % 2 == 0 {\n                omega_lookup.insert(omega_j, i);\n            }"))
m("r_lookup_direct", "C15", (RG, "            LagrangeCache::Direct(i)\n        } else {", "            LagrangeCache::Direct(i.min(6))\n        } else {"))
m("r_bitrev", "C15", (RG, "                for (j, coeff) in coeffs.iter().enumerate() {\n                    let i = bitreverse(j as u32, self.domain.log2_n()) as usize;", "                for (j, coeff) in coeffs.iter().enumerate() {\n                    let i = if self.domain.log2_n() > 3 { j } else { bitreverse(j as u32, self.domain.log2_n()) as usize };"))
m("r_order", "C15", (RG, "            .chain(self.bonding)\n            .chain(self.internal_steps)", "            .chain(self.internal_steps)\n            .chain(self.bonding)"))
m("r_digest_iter", "C15", (RG, "            w = field_from_hash(&digest_state, 0);", "            let _ = &mut w;"))
m("r_digest_const", "C15", (RG, "            hasher.update(eval.to_repr().as_ref());", "            if self.circuits.len() < 5 { hasher.update(eval.to_repr().as_ref()); }"))
m("r_digest_len", "C15", (RG, "        field_from_hash(&hasher.finalize(), 0)", "        hasher.update(&(self as *const Self as u64).to_le_bytes());\n        field_from_hash(&hasher.finalize(), 0)"))
m("r_omega_j", "C15", (RG, "let bit_reversal_id = bitreverse(self.0, F::S);", "let bit_reversal_id = bitreverse(if self.0 == 12 { 13 } else { self.0 }, F::S);"))
m("r_log2", "C15", (RG, "self.num_internal_circuits() + self.internal_steps.len() + self.application_steps.len()", "self.num_internal_circuits() + (self.internal_steps.len() + self.application_steps.len()).max(1)"))
m("r_limit", "C15", (RG, "if total_circuits > R::num_coeffs() {", "if total_circuits > 16 {"))
# wiring evaluators
m("f_gate", "C16 C15", (FP, "        gate_start += record.num_gates();", "        gate_start += record.num_gates() - usize::from(record.num_gates() > 3);"))
m("f_cons", "C15 C16", (FP, "        constraint_start += record.num_constraints();", "        constraint_start += record.num_constraints() - usize::from(record.num_constraints() == 4);"))
m("sx_rev", "C15", (SX, "    for seg in evaluator.floor_plan {", "    for seg in evaluator.floor_plan.iter().take(3) {"))
m("sx_d_leak", "C15", (SX, "        let init_scope = SxScope {\n            available_d: None,", "        let init_scope = SxScope {\n            available_d: self.scope.available_d.take(),"))
m("sxy_d_leak", "C16 C15", (SXY, "        let init_scope = SxyScope {\n            available_d: None,", "        let init_scope = SxyScope {\n            available_d: self.scope.available_d,"))
m("sxy_sum", "C15 C16", (SXY, "y_pow_constraint_start * self.scope.result + self.scope.sum;", "y_pow_constraint_start * (self.scope.result + self.scope.sum);"))
m("sxy_ypow", "C15", (SXY, "self.y.pow_vartime([constraint_start as u64])", "self.y.pow_vartime([(constraint_start % 31) as u64])"))
m("sxy_y0", "C15", (SXY, "        return Ok(one);", "        return Ok(F::ZERO);"))
m("sy_y", "C16 C15", (SY, "seg.constraint_start + seg.num_constraints - 1) as u64", "seg.constraint_start + seg.num_constraints.max(2) - 1) as u64"))
m("sy_d_leak", "C16 C15", (SY, "        let init_scope = SyScope {\n            available_d: None,", "        let init_scope = SyScope {\n            available_d: self.scope.available_d.clone(),"))
m("sy_gain", "C15 C16", (SY, "        self.terms.push((wire.index, coeff * self.gain));", "        self.terms.push((wire.index, if self.terms.len() == 3 { coeff } else { coeff * self.gain }));"))
m("sy_gain2", "C15 C16", (SY, "        self.1 = self.1 * coeff;", "        self.1 = if coeff.is_zero() { self.1 } else { self.1 * coeff };"))
m("sy_y0", "C15", (SY, "        view.b.push(F::ONE);", "        view.a.push(F::ONE);"))
m("sy_free", "C15 C16", (SY, "                    self.add(wire, value * coeff);\n                    self.free(wire);", "                    if !matches!(wire, WireIndex::Virtual(i) if self.wires[i].refcount > 3) { self.add(wire, value * coeff); }\n                    self.free(wire);"))
m("sy_value", "C15 C16", (SY, "                self.wires[i].value = self.wires[i].value + value;\n", "                self.wires[i].value = if self.wires[i].terms.len() > 4 { value } else { self.wires[i].value + value };\n"))
m("sc_gain", "C15 C16", (SC, "        self.gain = self.gain * coeff;", "        self.gain = if self.value.is_zero_vartime() { self.gain } else { self.gain * coeff };"))
m("sc_one", "C15", (SC, "            WireEval::One => self.one,", "            WireEval::One => if self.value.is_zero_vartime() { self.one } else { self.one.double() },"))
m("tr_d_leak", "C16", (TR, "                    TraceScope {\n                        available_d: None,", "                    TraceScope {\n                        available_d: self.state.available_d,"))
m("tr_counter", "C16", (TR, "        self.state.routine_counter += 1;", "        if routine_index < 2 { self.state.routine_counter += 1; }"))
m("tr_sort", "C16", (TR, "segments.sort_unstable_by(|a, b| a.dfs_path.cmp(&b.dfs_path));", "segments.sort_unstable_by(|a, b| (a.dfs_path.iter().rev().cmp(b.dfs_path.iter().rev())).then(a.dfs_path.cmp(&b.dfs_path)));"))
m("tr_copyd", "C16", (TR, "            view.d[offset..offset + seg.d.len()].copy_from_slice(&seg.d);", "            if seg.d.len() != 2 { view.d[offset..offset + seg.d.len()].copy_from_slice(&seg.d); }"))
m("tr_drop", "C16", (TR, "            segments.extend(batch?);", "            if let Ok(batch) = batch { segments.extend(batch) }"))
m("tr_alloc_c", "C16", (TR, "            seg.d[index] = value()?.value();", "            seg.c[index] = value()?.value();"))
m("mt_d_leak", "C16 C15", (MT, "        self.scope.available_d = None; // match", "        // match"))
m("mt_saved", "C16 C15", (MT, "        self.scope.available_d = saved_d;", "        let _ = saved_d;"))
m("rw_outputs", "C16", (RW, "    for output in &outputs {", "    for output in outputs.iter().take(3) {"))
m("rw_one", "C16 C15", (RW, "    dr.enforce_zero(|lc| lc.add(&D::ONE))?;", "    dr.enforce_zero(|lc| lc.add(&D::ONE).sub(&D::ONE).add(&D::ONE).add(&D::ONE))?;"))
# staging
m("t_mask_off", "C17", (MK, "            let j = self.skip_gates + i;", "            let j = (self.skip_gates + i).min(R::n() - 2);"))
m("t_mask_d", "C17", (MK, "            view.c[j] = F::ZERO;\n            view.d[j] = F::ZERO;\n        }", "            view.c[j] = F::ZERO;\n            if i > 0 { view.d[j] = F::ZERO; }\n        }"))
m("t_mask_c", "C17", (MK, "            view.b[j] = F::ZERO;\n            view.c[j] = F::ZERO;\n            view.d[j] = F::ZERO;\n        }", "            view.b[j] = F::ZERO;\n            if i + 1 < self.num_gates { view.c[j] = F::ZERO; }\n            view.d[j] = F::ZERO;\n        }"))
m("t_mask_sys", "C17", (MK, "        view.b[0] = F::ZERO;\n        view.c[0]", "        view.c[0]"))
m("t_mask_sxy", "C17 C15", (MK, "self.skip_gates, self.num_gates)\n    }\n\n    fn sx", "self.skip_gates, self.num_gates.max(1))\n    }\n\n    fn sx"))
m("t_mask_bound", "C17", (MK, "if skip_gates + num_gates > R::n() {", "if skip_gates + num_gates >= R::n() {"))
m("t_final", "C17", (MK, "let num_gates = R::n() - skip_gates;", "let num_gates = R::n() - skip_gates - 1;"))
m("t_final_skip", "C17", (ST, "mask::StageMask::new_final(\n            Self::skip_gates() + Self::num_gates(),", "mask::StageMask::new_final(\n            Self::skip_gates() + Self::num_gates().min(3),"))
m("t_skip", "C17", (ST, "        Self::Parent::skip_gates() + Self::Parent::num_gates()", "        Self::Parent::skip_gates() + Self::Parent::values() / 2"))
m("t_rx_alpha", "C17", (ST, "        view.d.push(alpha);\n", "        view.d.push(F::ZERO);\n        view.b[0] = alpha;\n"))
m("t_rx_pair", "C17", (ST, "            view.b.push(b);\n            view.c.push(F::ZERO);\n            view.d.push(d);", "            view.b.push(d);\n            view.c.push(F::ZERO);\n            view.d.push(b);"))
m("t_rx_long", "C17", (ST, "        if values.len() > Self::values() {\n            return", "        if values.len() > Self::values() + 1 {\n            return"))
m("t_gen", "C17", (ST, "2 * R::n() - 1 - Self::skip_gates() - coefficient_index", "2 * R::n() - 1 - Self::skip_gates() - coefficient_index.min(2)"))
m("t_enf", "C17", (BU, "        output.enforce_consistent(dr)?;\n", "        let _ = dr;\n"))
m("t_pad", "C17", (BU, "        while (num_wires / 2) < Next::num_gates() {", "        while (num_wires + 1) / 2 < Next::num_gates() {"))
m("t_long", "C17", (BU, "        if num_wires > Next::values() {", "        if num_wires > 2 * Next::num_gates() {"))
m("t_bond_gate", "C17", (BO, "        self.record(\"bonding circuits must not call mul/gate\");\n", ""))
m("t_bond_const", "C17", (BO, "        self.record(\"bonding circuits must not create constants\");\n", ""))
m("t_bond_add", "C17", (BO, "        if lc(RejectOne(false)).0 {\n            self.record(\"bonding circuits must not reference the ONE wire\");\n        }\n        BondingWire::Normal", "        let _ = lc(RejectOne(false)).0;\n        BondingWire::Normal"))
m("t_bond_enf", "C17", (BO, "        if lc(RejectOne(false)).0 {\n            self.record(\"bonding circuits must not reference the ONE wire\");\n        }\n        Ok(())", "        let _ = lc(RejectOne(false)).0;\n        Ok(())"))
m("t_bond_acc", "C17", (BO, "        if *wire == BondingWire::One {\n            self.0 = true;\n        }", "        self.0 = *wire == BondingWire::One;"))
m("t_bond_lastmsg", "C17", (BO, "        if let Some(msg) = validator.error {", "        if let Some(msg) = validator.error.filter(|m| m.len() > 40) {"))
m("t_strip_sxy", "C17 C15", (BO, "self.0.sxy(x, y, floor_plan) - x.pow_vartime([(2 * R::n()) as u64])", "self.0.sxy(x, y, floor_plan) - if y.is_zero_vartime() { F::ZERO } else { x.pow_vartime([(2 * R::n()) as u64]) }"))
m("t_strip_sy", "C17 C15", (BO, "        poly.sub_assign(&correction.build());\n", "        if y != F::ZERO { poly.sub_assign(&correction.build()); }\n"))
m("t_strip_sx", "C15 C17", (BO, "        let correction = sparse::Polynomial::from_coeffs(alloc::vec![coeff_0]);", "        let correction = sparse::Polynomial::from_coeffs(alloc::vec![coeff_0.double()]);"))

# C18: polynomials
P = "crates/ragu_circuits/src/polynomials/sparse/mod.rs"
PV = "crates/ragu_circuits/src/polynomials/sparse/view.rs"
PM = "crates/ragu_circuits/src/polynomials/mod.rs"
AU = "crates/ragu_arithmetic/src/util.rs"
AD = "crates/ragu_arithmetic/src/domain.rs"
m("po_gap_keep", "C18", (P, "run.extend(core::iter::repeat_n(F::ZERO, zero_count));\n                zero_count = 0;", "if zero_count < GAP_TOLERANCE {\n                    run.extend(core::iter::repeat_n(F::ZERO, zero_count));\n                }\n                zero_count = 0;"))
m("po_gap_reset", "C18", (P, "core::mem::take(&mut run)));\n                    zero_count = 0;", "core::mem::take(&mut run)));"))
m("po_empty_lhs", "C18", (P, "op(o, r);\n                }\n                extend_runs(&mut out, *s, v);", "*o = *r;\n                }\n                let _ = &mut op;\n                extend_runs(&mut out, *s, v);"))
m("po_adjacent_l", "C18", (P, "while ri < rhs.len() && rhs[ri].0 <= cluster_end {", "while ri < rhs.len() && rhs[ri].0 < cluster_end.max(cluster_start + 1) {"))
m("po_reuse", "C18", (P, "&& lhs[li_start].0 == cluster_start\n                && lhs[li_start].1.len() == cluster_len", "&& lhs[li_start].1.len() == cluster_len"))
m("po_one_pass", "C18", (P, "if !extended {\n                    break;\n                }", "let _ = extended;\n                if li > li_start + 3 || !extended { break; }"))
m("po_full", "C18", (P, "if cluster_start == 0 && cluster_len == R::num_coeffs() {", "if cluster_len == R::num_coeffs() - 1 {\n                out.push((0, data));\n            } else if cluster_start == 0 && cluster_len == R::num_coeffs() {"))
m("po_scale_zero", "C18", (P, "if bool::from(by.is_zero()) {\n            self.blocks.clear();", "if bool::from(by.is_zero()) {\n            self.blocks.truncate(0);"))
m("po_scale_one", "C18", (P, "self.apply_all(|x| *x *= by);", "if by != -F::ONE || self.blocks.len() < 3 { self.apply_all(|x| *x *= by); }"))
m("po_fold_acc", "C18", (P, "acc.scale(scale_factor);\n            acc.add_assign(poly.borrow());", "acc.scale(scale_factor);\n            if !acc.blocks.is_empty() || scale_factor != F::ZERO { acc.add_assign(poly.borrow()); } else { acc = poly.borrow().clone(); acc.scale(-F::ONE); acc.negate(); let l = acc.blocks.len(); acc.blocks.truncate(l.max(1) - 1 + usize::from(l < 4)); }"))
m("po_eval_tail", "C18", (P, "if prev_start > 0 {\n            result *= z.pow_vartime([prev_start as u64]);", "if prev_start > 1 {\n            result *= z.pow_vartime([prev_start as u64]);"))
m("po_dilate_gap", "C18", (P, "power *= z;\n            }\n            prev_end = *start + data.len();\n        }\n    }\n\n    /// Inner", "power *= z;\n            }\n            prev_end = *start + data.len().max(2);\n        }\n    }\n\n    /// Inner"))
m("po_revdot_adv", "C18", (P, "if a_end <= rev_hi {\n                a_iter.next();\n            }\n            if rev_hi <= a_end {", "if a_end <= rev_hi {\n                a_iter.next();\n            }\n            if rev_hi <= a_end + 1 {"))
m("po_revdot_eq", "C18", (P, "if a_end <= rev_hi {\n                a_iter.next();", "if a_end <= rev_hi + 1 {\n                a_iter.next();"))
m("po_commit", "C18", (P, "self.blocks.iter().flat_map(|(_, data)| data.iter()),\n            self.blocks\n                .iter()\n                .flat_map(|(start, data)| &g[*start..*start + data.len()]),", "self.blocks.iter().flat_map(|(_, data)| data.iter()),\n            self.blocks\n                .iter()\n                .flat_map(|(start, data)| &g[*start..*start + data.len().max(1) + usize::from(data.len() == 13)]),"))
m("po_iter_back", "C18", (P, "if *start <= self.back {\n                break;", "if *start < self.back {\n                break;"))
m("po_iter_front", "C18", (P, "if *start + data.len() > self.front {\n                break;", "if *start + data.len() >= self.front && self.front_block > 0 {\n                break;\n            }\n            if *start + data.len() > self.front {\n                break;"))
m("po_sub_ring", "C18 C03", (P, "Polynomial::sub_assign(r, other);", "if r.blocks.is_empty() { Polynomial::add_assign(r, other); } else { Polynomial::sub_assign(r, other); }"))
m("po_view_n", "C18", (PV, "blocks.push((4 * n - d.len(), d));", "blocks.push((4 * n - d.len(), d));\n            if blocks.len() == 1 { let l = blocks[0].1.len(); blocks[0].0 = 4 * n - l.max(2); }"))
m("po_view_over", "C18", (PV, "self.d.len() <= n,", "self.d.len() <= 2 * n,"))
m("po_tz0", "C18", (PM, "if z != F::ZERO {\n            let zinv", "if z != F::ZERO && z != -F::ONE {\n            let zinv"))
m("po_txz0", "C18", (PM, "if x == F::ZERO || z == F::ZERO {", "if x == F::ZERO || z == F::ZERO || x * z == -F::ONE {"))
m("po_factor_tmp", "C18", (AU, "tmp = lead_coeff;\n        tmp *= b;", "tmp = lead_coeff;\n        if b != F::ONE {\n            tmp *= b;\n        }\n        tmp += F::ZERO;"))
m("po_geosum", "C18", (AU, "step *= r;\n        }", "step *= r;\n            if m == 5 { step = step.double(); }\n        }"))
m("po_ell", "C18", (AD, ".scan((xn - F::ONE) * self.n_inv, move", ".scan((xn - F::ONE) * if amount == 1 { F::TWO_INV } else { self.n_inv }, move"))
m("po_contains", "C18", (AD, "x.pow([self.n as u64]) == F::ONE", "x.pow([self.n as u64]) == F::ONE && (x != -F::ONE || self.log2_n != 1)"))

# --- claims: one claim replaced by a repeat of another ------------------------
NC = PCD + "internal/native/claims.rs"
NN = PCD + "internal/nested/claims.rs"
EN = PCD + "internal/endoscalar.rs"
for nm, st in (("pre", "Preamble"), ("inner", "InnerError"), ("outer", "OuterError"), ("eval", "Eval")):
    m(f"z_cl_{nm}", "C11", (NC, f"processor.bonding(id, source.rx(Rx({st})))?;", "processor.bonding(QueryStage, source.rx(Rx(Query)))?;"))
m("z_cl_query", "C11", (NC, "processor.bonding(id, source.rx(Rx(Query)))?;", "processor.bonding(EvalStage, source.rx(Rx(Eval)))?;"))
m("z_cl_of_h1", "C11", (NC, "                        .rx(Rx(Hashes1))\n                        .chain(", "                        .rx(Rx(Hashes2))\n                        .chain("))
m("z_cl_of_h2", "C11", (NC, "                        .chain(source.rx(Rx(Hashes2)))\n", ""))
m("z_cl_of_oc", "C11", (NC, "                        .chain(source.rx(Rx(OuterCollapse))),\n", ""))
m("z_cl_innerfinal", "C11", (NC, "processor.bonding(id, source.rx(Rx(InnerCollapse)))?;", "processor.bonding(QueryStage, source.rx(Rx(Query)))?;"))
m("z_cl_evalfinal", "C11", (NC, "processor.bonding(id, source.rx(Rx(ComputeV)))?;", "processor.bonding(QueryStage, source.rx(Rx(Query)))?;"))
m("z_nc_endo", "C11", (NN, "processor.bonding(id, source.rx(RxIndex::EndoscalarStage))?;", "processor.bonding(PointsStage, source.rx(RxIndex::PointsStage))?;"))
m("z_nc_points", "C11", (NN, "processor.bonding(id, source.rx(RxIndex::PointsStage))?;", "processor.bonding(EndoscalarStage, source.rx(RxIndex::EndoscalarStage))?;"))
m("z_nc_final", "C11 C05", (NN, "let final_rxs = (0..num_steps)", "let final_rxs = (0..num_steps - 1)"))
for b in ("Preamble", "SPrime", "InnerError", "OuterError", "AB", "Query", "F", "Eval"):
    o = "BridgeQuery" if b != "Query" else "BridgeEval"
    m(f"z_nc_b{b.lower()}", "C11 C05", (NN, f"processor.bonding(id, source.rx(RxIndex::Bridge{b}))?;", f"processor.bonding({o}, source.rx(RxIndex::{o}))?;"))
m("z_en_eq", "C11", (EN, "        acc.enforce_equal(dr, &points.interstitials[self.step])?;\n", "        let _ = &acc;\n"))
m("z_en_eq_last", "C11", (EN, "        acc.enforce_equal(dr, &points.interstitials[self.step])?;\n", "        if self.step != 5 { acc.enforce_equal(dr, &points.interstitials[self.step])?; }\n"))
m("z_en_chain", "C11", (EN, "            .map(|i| &points.interstitials[i])", "            .map(|i| &points.interstitials[i.min(5)])"))

# --- randomness ---------------------------------------------------------------
FU = PCD + "fuse/"
m("z_rnd_pre", "C08", (FU + "_02_preamble.rs", "            C::CircuitField::random(&mut *rng),\n", "            C::CircuitField::from(5),\n"), )
m("z_rnd_preb", "C08", (FU + "_02_preamble.rs", "                C::ScalarField::random(&mut *rng),\n", "                C::ScalarField::from(5),\n"))
m("z_rnd_sp", "C08", (FU + "_03_s_prime.rs", "                C::ScalarField::random(&mut *rng),\n", "                C::ScalarField::from(5),\n"))
m("z_rnd_ie", "C08", (FU + "_04_inner_error.rs", "                C::CircuitField::random(&mut *rng),\n", "                C::CircuitField::from(5),\n"))
m("z_rnd_oe", "C08", (FU + "_05_outer_error.rs", "                C::CircuitField::random(&mut *rng),\n", "                C::CircuitField::from(5),\n"))
m("z_rnd_oeb", "C08", (FU + "_05_outer_error.rs", "                C::ScalarField::random(&mut *rng),\n", "                C::ScalarField::from(5),\n"))
m("z_rnd_ab", "C08", (FU + "_06_ab.rs", "                C::ScalarField::random(&mut *rng),\n", "                C::ScalarField::from(5),\n"))
m("z_rnd_q", "C08", (FU + "_07_query.rs", "            C::CircuitField::random(&mut *rng),\n", "            C::CircuitField::from(5),\n"))
m("z_rnd_f", "C08", (FU + "_08_f.rs", "                C::ScalarField::random(&mut *rng),\n", "                C::ScalarField::from(5),\n"))
m("z_rnd_ev", "C08", (FU + "_09_eval.rs", "            C::CircuitField::random(&mut *rng),\n", "            C::CircuitField::from(5),\n"))
m("z_rnd_endo", "C08", (FU + "_10_p.rs", "                C::ScalarField::random(&mut *rng),\n", "                C::ScalarField::from(5),\n"))
m("z_rnd_pts", "C08", (FU + "_10_p.rs", ">>::rx(C::ScalarField::random(&mut *rng), &witness)?;", ">>::rx(C::ScalarField::from(5), &witness)?;"))

# --- registration ---------------------------------------------------------------
LB = PCD + "lib.rs"
ST = PCD + "step/mod.rs"
m("z_dup_out", "C10", (LB, "        self.prevent_duplicate_suffixes::<S::Output>()?;\n", ""))
m("z_dup_left", "C10", (LB, "        self.prevent_duplicate_suffixes::<S::Left>()?;\n", ""))
m("z_dup_right", "C10", (LB, "        self.prevent_duplicate_suffixes::<S::Right>()?;\n", ""))
m("z_dup_once", "C10", (LB, "                if *ty != TypeId::of::<H>() {", "                if *ty != TypeId::of::<H>() && self.num_application_steps < 3 {"))
m("z_idx", "C10 C09", (ST, "                if i != expect_id {", "                if i > expect_id {"))
m("z_idx_bound", "C10 C09", (ST, "                if i >= num_application_steps {", "                if i > num_application_steps {"))
m("z_pad_limit", "C09 C05", (PCD + "step/internal/padded.rs", "        if self.written >= HEADER_SIZE - 1 {", "        if self.written > HEADER_SIZE {"))

# --- small building blocks -----------------------------------------------------
VEC = "crates/ragu_primitives/src/vec.rs"
PRO = "crates/ragu_primitives/src/promotion.rs"
CF = "crates/ragu_arithmetic/src/coeff.rs"
LX = "crates/ragu_core/src/drivers/linexp.rs"
UT = "crates/ragu_arithmetic/src/util.rs"
FF = "crates/ragu_arithmetic/src/fft.rs"
HO = "crates/ragu_circuits/src/horner.rs"
BL = "crates/ragu_circuits/src/staging/builder.rs"
SI = "crates/ragu_primitives/src/simulator.rs"
ESC = "crates/ragu_primitives/src/endoscalar.rs"
m("w_vec_cons", "C13", (VEC, "        for item in self.iter() {\n            item.enforce_consistent(dr)?;", "        for item in self.iter().skip(1) {\n            item.enforce_consistent(dr)?;"))
m("w_vec_eq", "C13 C14", (VEC, "        for (a, b) in a.iter().zip(b.iter()) {\n            G::enforce_equal_gadget", "        for (a, b) in a.iter().zip(b.iter()).skip(1) {\n            G::enforce_equal_gadget"))
m("w_vec_write", "C12 C14", (VEC, "        for item in &this.v {", "        for item in this.v.iter().rev() {"))
m("w_vec_map", "C14", (VEC, "        this.iter()\n            .map(|g| G::map_gadget(g, wm))\n            .try_collect_fixed()", "        let v: Vec<_> = this.iter().rev()\n            .map(|g| G::map_gadget(g, wm)).collect::<Result<_>>()?;\n        v.into_iter().rev().collect_fixed()"))
m("w_dem_eq", "C13 C14", (PRO, "        G::enforce_equal_gadget(dr, &a.gadget, &b.gadget)\n", "        let _ = (dr, a, b);\n        Ok(())\n"))
m("w_arr_cons", "C13", ("crates/ragu_primitives/src/consistent.rs", "        for item in self.iter() {", "        for item in self.iter().skip(1) {"))
m("w_pair_cons", "C13", ("crates/ragu_primitives/src/consistent.rs", "        self.1.enforce_consistent(dr)?;\n", ""))
m("w_cf_n1n1", "C14", (CF, "(Coeff::NegativeOne, Coeff::NegativeOne) => Coeff::Arbitrary(-F::ONE.double()),", "(Coeff::NegativeOne, Coeff::NegativeOne) => Coeff::NegativeArbitrary(-F::ONE.double()),"))
m("w_cf_2n1", "C14", (CF, "(Coeff::Two, Coeff::NegativeOne) | (Coeff::NegativeOne, Coeff::Two) => Coeff::One,", "(Coeff::Two, Coeff::NegativeOne) | (Coeff::NegativeOne, Coeff::Two) => Coeff::Two,"))
m("w_cf_n1na", "C14", (CF, "                Coeff::NegativeArbitrary(F::ONE + a)", "                Coeff::NegativeArbitrary(F::ONE - a)"))
m("w_cf_1na", "C14", (CF, "Coeff::Arbitrary(F::ONE - a),", "Coeff::Arbitrary(F::ONE + a),"))
m("w_cf_nana", "C14", (CF, "            (Coeff::NegativeArbitrary(a), Coeff::NegativeArbitrary(b)) => {\n                Coeff::NegativeArbitrary(a + b)", "            (Coeff::NegativeArbitrary(a), Coeff::NegativeArbitrary(b)) => {\n                Coeff::Arbitrary(a + b)"))
m("w_cf_ana", "C14", (CF, "Coeff::Arbitrary(a - b),", "Coeff::Arbitrary(a + b),"))
m("w_cf_mul2", "C14", (CF, "(Coeff::Two, a) | (a, Coeff::Two) => Coeff::Arbitrary(a.value().double()),\n            (Coeff::NegativeOne", "(Coeff::Two, Coeff::Two) => Coeff::Two,\n            (Coeff::Two, a) | (a, Coeff::Two) => Coeff::Arbitrary(a.value().double()),\n            (Coeff::NegativeOne"))
m("w_cf_mulnn", "C14", (CF, "            | (Coeff::NegativeArbitrary(a), Coeff::NegativeArbitrary(b)) => Coeff::Arbitrary(a * b),", "            => Coeff::Arbitrary(a * b),\n            (Coeff::NegativeArbitrary(a), Coeff::NegativeArbitrary(b)) => Coeff::NegativeArbitrary(a * b),"))
m("w_cf_mul1na", "C14", (CF, "            | (Coeff::NegativeArbitrary(a), Coeff::NegativeOne) => Coeff::Arbitrary(a),\n            (Coeff::Arbitrary(a), Coeff::Arbitrary(b))", "            | (Coeff::NegativeArbitrary(a), Coeff::NegativeOne) => Coeff::NegativeArbitrary(a),\n            (Coeff::Arbitrary(a), Coeff::Arbitrary(b))"))
m("w_cf_iszero", "C14", (CF, "Coeff::Arbitrary(v) | Coeff::NegativeArbitrary(v) => v.is_zero().into(),", "Coeff::Arbitrary(v) => v.is_zero().into(),"))
m("w_lx_two", "C14", (LX, "Coeff::Two => self.value += wire.double(),", "Coeff::Two => self.value += *wire,"))
m("w_lx_gain", "C14", (LX, "        self.current_gain = self.current_gain * coeff;", "        self.current_gain = coeff;"))
m("w_lx_gainadd", "C14", (LX, "        self.current_gain = self.current_gain * coeff;", "        self.current_gain = self.current_gain * coeff; self.value *= coeff.value();"))
m("w_lx_sub", "C14", (LX, "        self.add_term(wire, Coeff::NegativeOne)", "        self.add_term(wire, Coeff::One).gain(Coeff::One)"))
m("w_ho_none", "C14 C15", (HO, "            None => value.clone(),", "            None => value.mul(dr, self.point)?,"))
m("w_ho_ky", "C11 C04", (HO, "        Element::one().write(dr, &mut self)?;\n", "        if self.result.is_none() { Element::one().write(dr, &mut self)?; } else { let o = Element::one(); self.result = self.result.map(|r| r.add(dr, &o)); }\n"))
m("w_bl_pad", "C17", (BL, "        while (num_wires / 2) < Next::num_gates() {", "        while num_wires.div_ceil(2) < Next::num_gates() {"))
m("w_bl_bound", "C17", (BL, "        if num_wires > Next::values() {", "        if num_wires > Next::values() + 2 {"))
m("w_si_cd", "C14 C13", (SI, "        if c * d != F::ZERO {", "        if c * d != F::ZERO && a == F::ZERO {"))
m("w_si_ab", "C14 C13", (SI, "        if a * b != c {", "        if a * b != c && c != F::ZERO {"))
m("w_si_lc", "C14 C13", (SI, "        if lc.value() != F::ZERO {", "        if lc.value() != F::ZERO && lc.value() != F::ONE {"))
m("w_geosum", "C18 C15", (UT, "        block += r * block;", "        block = block.double() + r * block - block;\n        if m == 6 { block += F::ONE; }"))
m("w_poly_odd", "C03", (UT, "                polys.swap(pairs, last_idx);", "                if last_idx != 10 { polys.swap(pairs, last_idx); }"))
m("w_poly_fill", "C03", (UT, "            scratch2[poly2_len..n].fill(F::ZERO);\n", ""))
m("w_dot", "C03 C18", (UT, "    assert_eq!(a.len(), b.len());\n    a.into_iter()", "    a.into_iter()"))
m("w_eval_rev", "C18", (UT, "    for coeff in coeffs.into_iter().rev() {", "    for coeff in coeffs.into_iter().rev().skip_while(|c| bool::from(c.is_zero())).take(64) {"))
m("w_msm_none", "C03", (UT, "                Bucket::Affine(a) => Bucket::Projective(a + *other),", "                Bucket::Affine(a) if a == *other => Bucket::Affine(a),\n                Bucket::Affine(a) => Bucket::Projective(a + *other),"))
m("w_msm_win", "C03", (UT, "        let mut v = [0; 4];", "        let mut v = [0; 2];"), (UT, "        let mut tmp = u32::from_le_bytes(v);", "        let mut tmp = u16::from_le_bytes(v) as u32;"))
m("w_msm_seg", "C03", (UT, "    let segments = (C::Scalar::NUM_BITS as usize).div_ceil(c);", "    let segments = (C::Scalar::NUM_BITS as usize - 2).div_ceil(c);"))
m("w_factor_iter", "C18", (UT, "        // Discard `current` if constant term", "        if current == F::ZERO && tmp == F::ZERO { return Some(F::ONE); }\n        // Discard `current` if constant term"))
m("w_fft_small", "C03", (FF, "R::scale_assign(&mut t, twiddles[(i + 1) * twiddle_chunk]);\n                        *b = a.clone();\n                        R::add_assign(a, &t);\n                        R::sub_assign(b, &t);\n                    });\n            });\n            chunk *= 2;", "R::scale_assign(&mut t, twiddles[(i + 1) * twiddle_chunk]);\n                        *b = a.clone();\n                        R::add_assign(a, &t);\n                        if chunk < 16 || i != 6 { R::sub_assign(b, &t); }\n                    });\n            });\n            chunk *= 2;"))
m("w_dom_ell", "C18 C15", ("crates/ragu_arithmetic/src/domain.rs", "        let xn = x.pow([self.n as u64]); // x^n\n        if xn == F::ONE {", "        let xn = x.pow([self.n as u64]); // x^n\n        if x == F::ONE {"))
m("w_es_extract_c", "C13", (ESC, "            coeff_1 += coeff_3;\n", "            if i != 60 { coeff_1 += coeff_3; }\n"))
m("w_es_sq", "C13", (ESC, "                    .sub(square.wire())\n", "                    .add_term(square.wire(), if i == 7 { Coeff::One } else { Coeff::NegativeOne })\n"))
m("w_es_extract_bit", "C13", (ESC, "            dr.enforce_zero(|lc| {\n                lc.add_term(&D::ONE, coeff_0.into())", "            if i != 127 { dr.enforce_zero(|lc| {\n                lc.add_term(&D::ONE, coeff_0.into())"), (ESC, "                    .sub(square.wire())\n            })?;", "                    .sub(square.wire())\n            })?; }"))
m("w_es_bits", "C13 C14", (ESC, "            demoted_bit.promote(bits.as_mut().map(|bits| bits.next().unwrap()))", "            demoted_bit.promote(bits.as_mut().map(|bits| { let b = bits.next().unwrap(); b ^ (bits.size_hint().0 == 3) }))"))
m("w_es_scale_neg", "C13", (ESC, "            let q = p\n                .conditional_negate(dr, &negate_bit)?\n                .conditional_endo(dr, &endo_bit)?;", "            let q = p\n                .conditional_endo(dr, &negate_bit)?\n                .conditional_negate(dr, &endo_bit)?;"))
m("w_es_lift", "C13", (ESC, "            acc = acc.add(dr, &ne);\n", "            if i != 40 { acc = acc.add(dr, &ne); }\n"), (ESC, "        for _ in 0..(Uendo::BITS as usize / 2) {\n            let n = bits", "        for i in 0..(Uendo::BITS as usize / 2) {\n            let n = bits"))
m("w_es_nonzero", "C11 C05", (EN, "        nonzero_acc.invert(dr)?;\n", ""))
m("w_es_range", "C11 C04", (EN, "        let start = self.step * ENDOSCALINGS_PER_STEP;\n        let end", "        let start = self.step * ENDOSCALINGS_PER_STEP + (self.step == 2) as usize;\n        let end"))
