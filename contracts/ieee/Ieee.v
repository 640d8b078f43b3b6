(* The facts about binary64 arithmetic that contracts/00_prelude.vspec assumes (T7), proved from Flocq's definition of IEEE 754.
   bf is binary64 with one NaN; all operations round to nearest, ties to even, as Rust's f64 operations do. *)
From Coq Require Import ZArith Reals Lra Lia Bool.
From Flocq Require Import Core BinarySingleNaN.
Open Scope R_scope.

Notation bf := (binary_float 53 1024).
Global Instance prec_gt_0_64 : Prec_gt_0 53. Proof. reflexivity. Qed.
Global Instance prec_lt_emax_64 : Prec_lt_emax 53 1024. Proof. reflexivity. Qed.
Definition fsub (a b : bf) : bf := Bminus mode_NE a b.
Definition fmul (a b : bf) : bf := Bmult mode_NE a b.
Definition fdiv (a b : bf) : bf := Bdiv mode_NE a b.
Definition fle (a b : bf) : Prop := Bleb a b = true.
Definition fin (a : bf) : Prop := is_finite a = true.
Definition fpos (a : bf) : Prop := fin a /\ 0 < B2R a.
Definition fneg (a : bf) : Prop := fin a /\ B2R a < 0.
Definition u32 (n : Z) : Prop := (0 <= n < 2 ^ 32)%Z.
Definition f_of_u32 (n : Z) : bf := binary_normalize 53 1024 _ _ mode_NE n 0 false.
(* Rust's `as u32`: truncates, saturates, NaN is 0 *)
Definition u32_of_f (a : bf) : Z :=
  match a with
  | B754_zero _ => 0%Z
  | B754_nan => 0%Z
  | B754_infinity s => if s then 0%Z else (2 ^ 32 - 1)%Z
  | B754_finite _ _ _ _ => Z.max 0 (Z.min (2 ^ 32 - 1) (Ztrunc (B2R a)))
  end.

Definition rnd (z : R) : R := round radix2 (SpecFloat.fexp 53 1024) (round_mode mode_NE) z.
Definition big : R := bpow radix2 1024.
Definition rounded (r : bf) (z : R) : Prop :=
  if Rlt_bool (Rabs (rnd z)) big then is_finite r = true /\ B2R r = rnd z
  else B2SF r = SpecFloat.S754_infinity (Rlt_bool z 0).

Lemma rnd_mono : forall x y, x <= y -> rnd x <= rnd y.
Proof. intros. unfold rnd. apply round_le; auto. apply fexp_correct; reflexivity. apply valid_rnd_N. Qed.
Lemma rnd_0 : rnd 0 = 0.
Proof. unfold rnd. apply round_0. apply valid_rnd_N. Qed.
Lemma big_pos : 0 < big. Proof. apply bpow_gt_0. Qed.

Lemma low : forall r : bf, is_nan r = false -> Bleb (B754_infinity true) r = true.
Proof. intros [| [] | |[]]; simpl; auto; discriminate. Qed.
Lemma high : forall r : bf, is_nan r = false -> Bleb r (B754_infinity false) = true.
Proof. intros [| [] | |[]]; simpl; auto; discriminate. Qed.
Lemma b2sf_inf : forall (r : bf) s, B2SF r = SpecFloat.S754_infinity s -> r = B754_infinity s.
Proof. intros r s H. destruct r; simpl in H; try discriminate. injection H as ->. reflexivity. Qed.
Lemma fin_not_nan : forall r : bf, is_finite r = true -> is_nan r = false.
Proof. intros [| | |]; simpl; auto; discriminate. Qed.
Lemma rounded_not_nan : forall r z, rounded r z -> is_nan r = false.
Proof.
  intros r z. unfold rounded. destruct (Rlt_bool _ _).
  - intros [H _]. apply fin_not_nan; auto.
  - intros H. apply b2sf_inf in H. subst. reflexivity.
Qed.

Lemma rounded_mono : forall r1 r2 z1 z2, z1 <= z2 -> rounded r1 z1 -> rounded r2 z2 -> fle r1 r2.
Proof.
  intros r1 r2 z1 z2 Hz H1 H2. unfold fle.
  assert (N1 := rounded_not_nan _ _ H1). assert (N2 := rounded_not_nan _ _ H2).
  assert (M := rnd_mono _ _ Hz). unfold rounded in *.
  destruct (Rlt_bool_spec (Rabs (rnd z1)) big) as [L1 | L1]; destruct (Rlt_bool_spec (Rabs (rnd z2)) big) as [L2 | L2].
  - destruct H1 as [F1 V1], H2 as [F2 V2]. rewrite Bleb_correct by auto. rewrite V1, V2. apply Rle_bool_true. auto.
  - apply b2sf_inf in H2. destruct (Rlt_bool_spec z2 0) as [S | S].
    + (* z1 <= z2 < 0 and z2 overflows: so does z1 *)
      exfalso. assert (A2 : rnd z2 <= 0) by (rewrite <- rnd_0; apply rnd_mono; lra).
      rewrite Rabs_left1 in L2 by auto. rewrite Rabs_left1 in L1 by lra. lra.
    + subst r2. apply high; auto.
  - apply b2sf_inf in H1. destruct (Rlt_bool_spec z1 0) as [S | S].
    + subst r1. apply low; auto.
    + exfalso. assert (A1 : 0 <= rnd z1) by (rewrite <- rnd_0; apply rnd_mono; lra).
      rewrite Rabs_pos_eq in L1 by auto. rewrite Rabs_pos_eq in L2 by lra. lra.
  - apply b2sf_inf in H1. apply b2sf_inf in H2. subst.
    destruct (Rlt_bool_spec z1 0) as [S | S].
    + apply low. reflexivity.
    + rewrite (Rlt_bool_false z2 0) by lra. reflexivity.
Qed.

Lemma sign_neg : forall x : bf, Bsign x = true -> B2R x <= 0.
Proof. intros [ | | |[] m e p]; simpl; intros H; try discriminate; try lra. apply F2R_le_0. simpl. lia. Qed.
Lemma sign_pos : forall x : bf, Bsign x = false -> 0 <= B2R x.
Proof. intros [ | | |[] m e p]; simpl; intros H; try discriminate; try lra. apply F2R_ge_0. simpl. lia. Qed.

Lemma overflow_sign : forall z s, ~ Rabs (rnd z) < big -> (s = true -> z <= 0) -> (s = false -> 0 <= z) -> s = Rlt_bool z 0.
Proof.
  intros z s O T F.
  assert (z <> 0). { intros E. subst. apply O. rewrite rnd_0, Rabs_R0. apply big_pos. }
  destruct s; symmetry; [apply Rlt_bool_true | apply Rlt_bool_false].
  - specialize (T eq_refl). lra.
  - auto.
Qed.

Lemma sub_rounded : forall a b, fin a -> fin b -> rounded (fsub a b) (B2R a - B2R b).
Proof.
  intros a b Fa Fb. unfold rounded, fsub, rnd, big. generalize (Bminus_correct 53 1024 _ _ mode_NE a b Fa Fb).
  destruct (Rlt_bool_spec (Rabs (round radix2 (SpecFloat.fexp 53 1024) (round_mode mode_NE) (B2R a - B2R b))) (bpow radix2 1024)) as [L | L].
  - intros [V [F _]]. auto.
  - intros [V S]. rewrite V. unfold binary_overflow. simpl overflow_to_inf. cbv iota. f_equal.
    apply overflow_sign.
    + unfold rnd, big. lra.
    + intros E. assert (P := sign_neg _ E). rewrite E in S. assert (Q := sign_pos b). destruct (Bsign b); [discriminate |]. specialize (Q eq_refl). lra.
    + intros E. assert (P := sign_pos _ E). rewrite E in S. assert (Q := sign_neg b). destruct (Bsign b); [| discriminate]. specialize (Q eq_refl). lra.
Qed.

Lemma div_rounded : forall a c, fin a -> fin c -> B2R c <> 0 -> rounded (fdiv a c) (B2R a / B2R c).
Proof.
  intros a c Fa Fc C. unfold rounded, fdiv, rnd, big. generalize (Bdiv_correct 53 1024 _ _ mode_NE a c C).
  destruct (Rlt_bool_spec (Rabs (round radix2 (SpecFloat.fexp 53 1024) (round_mode mode_NE) (B2R a / B2R c))) (bpow radix2 1024)) as [L | L].
  - intros [V [F _]]. rewrite F. auto.
  - intros V. rewrite V. unfold binary_overflow. simpl overflow_to_inf. cbv iota. f_equal.
    apply overflow_sign.
    + unfold rnd, big. lra.
    + intros E. destruct (Bsign a) eqn:Sa; destruct (Bsign c) eqn:Sc; try discriminate.
      * assert (P := sign_neg _ Sa). assert (Q := sign_pos _ Sc). assert (R : 0 < B2R c) by lra. assert (0 < / B2R c) by (apply Rinv_0_lt_compat; auto). unfold Rdiv. nra.
      * assert (P := sign_pos _ Sa). assert (Q := sign_neg _ Sc). assert (R : B2R c < 0) by lra. assert (/ B2R c < 0) by (apply Rinv_lt_0_compat; auto). unfold Rdiv. nra.
    + intros E. destruct (Bsign a) eqn:Sa; destruct (Bsign c) eqn:Sc; try discriminate.
      * assert (P := sign_neg _ Sa). assert (Q := sign_neg _ Sc). assert (R : B2R c < 0) by lra. assert (/ B2R c < 0) by (apply Rinv_lt_0_compat; auto). unfold Rdiv. nra.
      * assert (P := sign_pos _ Sa). assert (Q := sign_pos _ Sc). assert (R : 0 < B2R c) by lra. assert (0 < / B2R c) by (apply Rinv_0_lt_compat; auto). unfold Rdiv. nra.
Qed.

Lemma mul_rounded : forall a c, fin a -> fin c -> rounded (fmul a c) (B2R a * B2R c).
Proof.
  intros a c Fa Fc. unfold rounded, fmul, rnd, big. generalize (Bmult_correct 53 1024 _ _ mode_NE a c).
  destruct (Rlt_bool_spec (Rabs (round radix2 (SpecFloat.fexp 53 1024) (round_mode mode_NE) (B2R a * B2R c))) (bpow radix2 1024)) as [L | L].
  - intros [V [F _]]. rewrite F. unfold fin in *. rewrite Fa, Fc. auto.
  - intros V. rewrite V. unfold binary_overflow. simpl overflow_to_inf. cbv iota. f_equal.
    apply overflow_sign.
    + unfold rnd, big. lra.
    + intros E. destruct (Bsign a) eqn:Sa; destruct (Bsign c) eqn:Sc; try discriminate.
      * assert (P := sign_neg _ Sa). assert (Q := sign_pos _ Sc). nra.
      * assert (P := sign_pos _ Sa). assert (Q := sign_neg _ Sc). nra.
    + intros E. destruct (Bsign a) eqn:Sa; destruct (Bsign c) eqn:Sc; try discriminate.
      * assert (P := sign_neg _ Sa). assert (Q := sign_neg _ Sc). nra.
      * assert (P := sign_pos _ Sa). assert (Q := sign_pos _ Sc). nra.
Qed.

Lemma fle_fin : forall a b, fin a -> fin b -> fle a b -> B2R a <= B2R b.
Proof. intros a b Fa Fb. unfold fle. rewrite Bleb_correct by auto. destruct (Rle_bool_spec (B2R a) (B2R b)); auto; discriminate. Qed.
(* a <= b: both are finite, or a is -inf, or b is +inf *)
Lemma fle_cases : forall a b, fle a b ->
  (fin a /\ fin b /\ B2R a <= B2R b) \/ (a = B754_infinity true /\ is_nan b = false) \/ (b = B754_infinity false /\ is_nan a = false).
Proof.
  intros a b H. destruct (is_finite a) eqn:Fa; destruct (is_finite b) eqn:Fb.
  - left. repeat split; auto. apply fle_fin; auto.
  - right. right. destruct b as [| [] | |]; try discriminate; destruct a as [| [] | |[]]; try discriminate; auto.
  - right. left. destruct a as [| [] | |]; try discriminate; destruct b as [| [] | |[]]; try discriminate; auto.
  - destruct a as [| [] | |]; try discriminate; destruct b as [| [] | |]; try discriminate; auto.
Qed.

Theorem f_sub_mono : forall a b c, fin a -> fin b -> fin c -> fle a b -> fle (fsub a c) (fsub b c).
Proof.
  intros a b c Fa Fb Fc H. apply fle_fin in H; auto.
  eapply rounded_mono; [| apply sub_rounded; auto | apply sub_rounded; auto]. lra.
Qed.

Lemma pos_shape : forall c, fpos c -> exists m e p, c = B754_finite false m e p.
Proof.
  intros [ | | |[] m e p] [F P]; try discriminate; simpl in P; try lra; eauto.
  exfalso. assert (Q := F2R_le_0 radix2 {| Fnum := Z.neg m; Fexp := e |} ltac:(simpl; lia)). lra.
Qed.
Lemma neg_shape : forall c, fneg c -> exists m e p, c = B754_finite true m e p.
Proof.
  intros [ | | |[] m e p] [F P]; try discriminate; simpl in P; try lra; eauto.
  exfalso. assert (Q := F2R_ge_0 radix2 {| Fnum := Z.pos m; Fexp := e |} ltac:(simpl; lia)). lra.
Qed.
Lemma div_inf : forall s c, fpos c -> fdiv (B754_infinity s) c = B754_infinity s.
Proof. intros s c H. destruct (pos_shape _ H) as [m [e [p ->]]]. destruct s; reflexivity. Qed.
Lemma div_inf_neg : forall s c, fneg c -> fdiv (B754_infinity s) c = B754_infinity (negb s).
Proof. intros s c H. destruct (neg_shape _ H) as [m [e [p ->]]]. destruct s; reflexivity. Qed.
Lemma mul_inf : forall s c, fpos c -> fmul (B754_infinity s) c = B754_infinity s.
Proof. intros s c H. destruct (pos_shape _ H) as [m [e [p ->]]]. destruct s; reflexivity. Qed.
Lemma not_nan_cases : forall a : bf, is_nan a = false -> fin a \/ exists s, a = B754_infinity s.
Proof. intros [| s | |]; simpl; intros; try discriminate; unfold fin; simpl; eauto. Qed.

Lemma div_not_nan : forall a c, is_nan a = false -> fpos c -> is_nan (fdiv a c) = false.
Proof.
  intros a c N C. destruct (not_nan_cases _ N) as [F | [s ->]].
  - destruct C as [Fc P]. eapply rounded_not_nan. apply div_rounded; auto. lra.
  - rewrite div_inf; auto.
Qed.
Lemma div_not_nan_neg : forall a c, is_nan a = false -> fneg c -> is_nan (fdiv a c) = false.
Proof.
  intros a c N C. destruct (not_nan_cases _ N) as [F | [s ->]].
  - destruct C as [Fc P]. eapply rounded_not_nan. apply div_rounded; auto. lra.
  - rewrite div_inf_neg; auto.
Qed.
Lemma mul_not_nan : forall a c, is_nan a = false -> fpos c -> is_nan (fmul a c) = false.
Proof.
  intros a c N C. destruct (not_nan_cases _ N) as [F | [s ->]].
  - destruct C as [Fc P]. eapply rounded_not_nan. apply mul_rounded; auto.
  - rewrite mul_inf; auto.
Qed.

Theorem f_div_pos : forall a b c, fle a b -> fpos c -> fle (fdiv a c) (fdiv b c).
Proof.
  intros a b c H C. destruct (fle_cases _ _ H) as [[Fa [Fb L]] | [[-> N] | [-> N]]].
  - destruct C as [Fc P]. eapply rounded_mono; [| apply div_rounded; auto; lra | apply div_rounded; auto; lra].
    unfold Rdiv. apply Rmult_le_compat_r; auto. left. apply Rinv_0_lt_compat. auto.
  - rewrite div_inf by auto. apply low. apply div_not_nan; auto.
  - rewrite (div_inf false) by auto. apply high. apply div_not_nan; auto.
Qed.
Theorem f_div_neg : forall a b c, fle a b -> fneg c -> fle (fdiv b c) (fdiv a c).
Proof.
  intros a b c H C. destruct (fle_cases _ _ H) as [[Fa [Fb L]] | [[-> N] | [-> N]]].
  - destruct C as [Fc P]. eapply rounded_mono; [| apply div_rounded; auto; lra | apply div_rounded; auto; lra].
    unfold Rdiv. assert (/ B2R c < 0) by (apply Rinv_lt_0_compat; auto). nra.
  - rewrite div_inf_neg by auto. apply high. apply div_not_nan_neg; auto.
  - rewrite (div_inf_neg false) by auto. apply low. apply div_not_nan_neg; auto.
Qed.

Lemma u32_exact : forall n, u32 n -> rnd (IZR n) = IZR n.
Proof.
  intros n [A B]. unfold rnd. apply round_generic. apply valid_rnd_N.
  replace (IZR n) with (F2R (beta := radix2) {| Fnum := n; Fexp := 0 |}) by (unfold F2R; simpl; ring).
  change (SpecFloat.fexp 53 1024) with (FLT_exp (-1074) 53).
  apply generic_format_FLT. apply (FLT_spec radix2 (-1074) 53 _ {| Fnum := n; Fexp := 0 |}); simpl; try reflexivity; try lia.
  all: rewrite Z.abs_eq by lia; lia.
Qed.
Lemma u32_small : forall n, u32 n -> Rabs (IZR n) < big.
Proof.
  intros n [A B]. rewrite Rabs_pos_eq by (apply IZR_le; lia). unfold big. rewrite <- (IZR_Zpower radix2) by lia. apply IZR_lt.
  apply Z.lt_le_trans with (2 ^ 32)%Z; auto. change (Zpower radix2 1024) with (2 ^ 1024)%Z. apply Z.pow_le_mono_r; lia.
Qed.
Lemma of_u32 : forall n, u32 n -> fin (f_of_u32 n) /\ B2R (f_of_u32 n) = IZR n.
Proof.
  intros n U. unfold f_of_u32, fin. generalize (binary_normalize_correct 53 1024 _ _ mode_NE n 0 false). cbv zeta.
  replace (F2R (beta := radix2) {| Fnum := n; Fexp := 0 |}) with (IZR n) by (unfold F2R; simpl; ring).
  fold (rnd (IZR n)). rewrite u32_exact by auto. fold big. rewrite Rlt_bool_true by (apply u32_small; auto).
  intros [V [F _]]. auto.
Qed.

Theorem f_mul_pos : forall a b n, fle a b -> u32 n -> (0 < n)%Z -> fle (fmul a (f_of_u32 n)) (fmul b (f_of_u32 n)).
Proof.
  intros a b n H U P. destruct (of_u32 n U) as [Fn Vn].
  assert (C : fpos (f_of_u32 n)). { split; auto. rewrite Vn. apply IZR_lt. auto. }
  destruct (fle_cases _ _ H) as [[Fa [Fb L]] | [[-> N] | [-> N]]].
  - destruct C as [Fc Q]. eapply rounded_mono; [| apply mul_rounded; auto | apply mul_rounded; auto]. apply Rmult_le_compat_r; lra.
  - rewrite mul_inf by auto. apply low. apply mul_not_nan; auto.
  - rewrite (mul_inf false) by auto. apply high. apply mul_not_nan; auto.
Qed.

Lemma to_u32_fin : forall a, fin a -> u32_of_f a = Z.max 0 (Z.min (2 ^ 32 - 1) (Ztrunc (B2R a))).
Proof. intros [| | |] F; try discriminate; auto. simpl B2R. rewrite Ztrunc_IZR. reflexivity. Qed.
Theorem f_to_u32 : forall a b, fle a b -> (u32_of_f a <= u32_of_f b)%Z.
Proof.
  intros a b H. destruct (fle_cases _ _ H) as [[Fa [Fb L]] | [[-> N] | [-> N]]].
  - rewrite !to_u32_fin by auto. assert (T := Ztrunc_le _ _ L). lia.
  - destruct (not_nan_cases _ N) as [F | [[] ->]]; simpl; try lia. rewrite to_u32_fin by auto. lia.
  - destruct (not_nan_cases _ N) as [F | [[] ->]]; simpl; try lia. rewrite to_u32_fin by auto. lia.
Qed.

Lemma rounded_val : forall r z, rounded r z -> Rabs (rnd z) < big -> fin r /\ B2R r = rnd z.
Proof. intros r z H L. unfold rounded in H. rewrite Rlt_bool_true in H by auto. auto. Qed.
Lemma zero_small : Rabs (rnd 0) < big. Proof. rewrite rnd_0, Rabs_R0. apply big_pos. Qed.
Theorem f_zero : forall a c n, fin a -> fpos c \/ fneg c -> u32 n -> u32_of_f (fmul (fdiv (fsub a a) c) (f_of_u32 n)) = 0%Z.
Proof.
  intros a c n Fa C U. assert (Fc : fin c /\ B2R c <> 0) by (destruct C as [[F P] | [F P]]; split; auto; lra). destruct Fc as [Fc Nc].
  destruct (of_u32 n U) as [Fn Vn].
  assert (S := sub_rounded a a Fa Fa). rewrite Rminus_diag_eq in S by auto.
  destruct (rounded_val _ _ S zero_small) as [Fs Vs]. rewrite rnd_0 in Vs.
  assert (D := div_rounded _ c Fs Fc Nc). rewrite Vs in D. unfold Rdiv in D. rewrite Rmult_0_l in D.
  destruct (rounded_val _ _ D zero_small) as [Fd Vd]. rewrite rnd_0 in Vd.
  assert (M := mul_rounded _ _ Fd Fn). rewrite Vd, Rmult_0_l in M.
  destruct (rounded_val _ _ M zero_small) as [Fm Vm]. rewrite rnd_0 in Vm.
  rewrite to_u32_fin by auto. rewrite Vm, Ztrunc_IZR. reflexivity.
Qed.
Theorem f_one : forall c n, fpos c \/ fneg c -> u32 n -> u32_of_f (fmul (fdiv c c) (f_of_u32 n)) = n.
Proof.
  intros c n C U. assert (Fc : fin c /\ B2R c <> 0) by (destruct C as [[F P] | [F P]]; split; auto; lra). destruct Fc as [Fc Nc].
  destruct (of_u32 n U) as [Fn Vn].
  assert (U1 : u32 1) by (split; lia).
  assert (D := div_rounded c c Fc Fc Nc). unfold Rdiv in D. rewrite Rinv_r in D by auto.
  destruct (rounded_val _ _ D) as [Fd Vd]. { rewrite (u32_exact 1) by auto. apply (u32_small 1); auto. }
  rewrite (u32_exact 1) in Vd by auto.
  assert (M := mul_rounded _ _ Fd Fn). rewrite Vd, Vn, Rmult_1_l in M.
  destruct (rounded_val _ _ M) as [Fm Vm]. { rewrite u32_exact by auto. apply u32_small; auto. }
  rewrite u32_exact in Vm by auto.
  rewrite to_u32_fin by auto. rewrite Vm, Ztrunc_IZR. destruct U. lia.
Qed.

