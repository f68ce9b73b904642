// Generated by gen_calls.py: one entry per public function: (name, has debug preconditions, call).
pub const CALLS: &[(&str, bool, fn(&mut G) -> Vec<u32>)] = &[
    ("XMVectorZero", false, |g| { let mut o = O::new();  let r = XMVectorZero(); o.put(r);  o.0 }),
    ("XMVectorSet", false, |g| { let mut o = O::new(); let a0 = g.f(); let a1 = g.f(); let a2 = g.f(); let a3 = g.f(); let r = XMVectorSet(a0, a1, a2, a3); o.put(r);  o.0 }),
    ("XMVectorSetInt", false, |g| { let mut o = O::new(); let a0 = g.u(); let a1 = g.u(); let a2 = g.u(); let a3 = g.u(); let r = XMVectorSetInt(a0, a1, a2, a3); o.put(r);  o.0 }),
    ("XMVectorReplicate", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMVectorReplicate(a0); o.put(r);  o.0 }),
    ("XMVectorReplicatePtr", false, |g| { let mut o = O::new(); let a0 = g.f(); let p0 = g.place(a0); let r = XMVectorReplicatePtr(&*p0); o.put(r); o.same(*p0, a0); o.0 }),
    ("XMVectorReplicateInt", false, |g| { let mut o = O::new(); let a0 = g.u(); let r = XMVectorReplicateInt(a0); o.put(r);  o.0 }),
    ("XMVectorTrueInt", false, |g| { let mut o = O::new();  let r = XMVectorTrueInt(); o.put(r);  o.0 }),
    ("XMVectorFalseInt", false, |g| { let mut o = O::new();  let r = XMVectorFalseInt(); o.put(r);  o.0 }),
    ("XMVectorSplatX", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorSplatX(a0); o.put(r);  o.0 }),
    ("XMVectorSplatY", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorSplatY(a0); o.put(r);  o.0 }),
    ("XMVectorSplatZ", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorSplatZ(a0); o.put(r);  o.0 }),
    ("XMVectorSplatW", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorSplatW(a0); o.put(r);  o.0 }),
    ("XMVectorSplatOne", false, |g| { let mut o = O::new();  let r = XMVectorSplatOne(); o.put(r);  o.0 }),
    ("XMVectorSplatInfinity", false, |g| { let mut o = O::new();  let r = XMVectorSplatInfinity(); o.put(r);  o.0 }),
    ("XMVectorSplatQNaN", false, |g| { let mut o = O::new();  let r = XMVectorSplatQNaN(); o.put(r);  o.0 }),
    ("XMVectorSplatEpsilon", false, |g| { let mut o = O::new();  let r = XMVectorSplatEpsilon(); o.put(r);  o.0 }),
    ("XMVectorSplatSignMask", false, |g| { let mut o = O::new();  let r = XMVectorSplatSignMask(); o.put(r);  o.0 }),
    ("XMVectorGetByIndex", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.idx(4) as usize; let r = XMVectorGetByIndex(a0, a1); o.put(r);  o.0 }),
    ("XMVectorGetX", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorGetX(a0); o.put(r);  o.0 }),
    ("XMVectorGetY", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorGetY(a0); o.put(r);  o.0 }),
    ("XMVectorGetZ", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorGetZ(a0); o.put(r);  o.0 }),
    ("XMVectorGetW", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorGetW(a0); o.put(r);  o.0 }),
    ("XMVectorGetXPtr", false, |g| { let mut o = O::new(); let a0 = g.of(); let p0 = g.place(a0); let a1 = g.v(); XMVectorGetXPtr(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMVectorGetYPtr", false, |g| { let mut o = O::new(); let a0 = g.of(); let p0 = g.place(a0); let a1 = g.v(); XMVectorGetYPtr(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMVectorGetZPtr", false, |g| { let mut o = O::new(); let a0 = g.of(); let p0 = g.place(a0); let a1 = g.v(); XMVectorGetZPtr(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMVectorGetWPtr", false, |g| { let mut o = O::new(); let a0 = g.of(); let p0 = g.place(a0); let a1 = g.v(); XMVectorGetWPtr(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMVectorGetIntByIndex", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.idx(4) as usize; let r = XMVectorGetIntByIndex(a0, a1); o.put(r);  o.0 }),
    ("XMVectorGetIntX", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorGetIntX(a0); o.put(r);  o.0 }),
    ("XMVectorGetIntY", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorGetIntY(a0); o.put(r);  o.0 }),
    ("XMVectorGetIntZ", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorGetIntZ(a0); o.put(r);  o.0 }),
    ("XMVectorGetIntW", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorGetIntW(a0); o.put(r);  o.0 }),
    ("XMVectorSetByIndex", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let a2 = g.idx(4) as usize; let r = XMVectorSetByIndex(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVectorSetX", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let r = XMVectorSetX(a0, a1); o.put(r);  o.0 }),
    ("XMVectorSetY", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let r = XMVectorSetY(a0, a1); o.put(r);  o.0 }),
    ("XMVectorSetZ", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let r = XMVectorSetZ(a0, a1); o.put(r);  o.0 }),
    ("XMVectorSetW", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let r = XMVectorSetW(a0, a1); o.put(r);  o.0 }),
    ("XMVectorSetIntByIndex", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.u(); let a2 = g.idx(4) as usize; let r = XMVectorSetIntByIndex(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVectorSetIntX", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.u(); let r = XMVectorSetIntX(a0, a1); o.put(r);  o.0 }),
    ("XMVectorSetIntY", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.u(); let r = XMVectorSetIntY(a0, a1); o.put(r);  o.0 }),
    ("XMVectorSetIntZ", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.u(); let r = XMVectorSetIntZ(a0, a1); o.put(r);  o.0 }),
    ("XMVectorSetIntW", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.u(); let r = XMVectorSetIntW(a0, a1); o.put(r);  o.0 }),
    ("XMVectorSwizzle", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.idx(4); let a2 = g.idx(4); let a3 = g.idx(4); let a4 = g.idx(4); let r = XMVectorSwizzle(a0, a1, a2, a3, a4); o.put(r);  o.0 }),
    ("XMVectorPermute", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.idx(8); let a3 = g.idx(8); let a4 = g.idx(8); let a5 = g.idx(8); let r = XMVectorPermute(a0, a1, a2, a3, a4, a5); o.put(r);  o.0 }),
    ("XMVectorSelectControl", false, |g| { let mut o = O::new(); let a0 = g.idx(2); let a1 = g.idx(2); let a2 = g.idx(2); let a3 = g.idx(2); let r = XMVectorSelectControl(a0, a1, a2, a3); o.put(r);  o.0 }),
    ("XMVectorSelect", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVectorSelect(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVectorMergeXY", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorMergeXY(a0, a1); o.put(r);  o.0 }),
    ("XMVectorMergeZW", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorMergeZW(a0, a1); o.put(r);  o.0 }),
    ("XMVectorShiftLeft", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.idx(4); let r = XMVectorShiftLeft(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVectorRotateLeft", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.idx(4); let r = XMVectorRotateLeft(a0, a1); o.put(r);  o.0 }),
    ("XMVectorRotateRight", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.idx(4); let r = XMVectorRotateRight(a0, a1); o.put(r);  o.0 }),
    ("XMVectorEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorEqual(a0, a1); o.put(r);  o.0 }),
    ("XMVectorEqualR", false, |g| { let mut o = O::new(); let a0 = g.ou(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let r = XMVectorEqualR(&mut *p0, a1, a2); o.put(r); o.put(*p0); o.0 }),
    ("XMVectorEqualInt", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorEqualInt(a0, a1); o.put(r);  o.0 }),
    ("XMVectorEqualIntR", false, |g| { let mut o = O::new(); let a0 = g.ou(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let r = XMVectorEqualIntR(&mut *p0, a1, a2); o.put(r); o.put(*p0); o.0 }),
    ("XMVectorNearEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVectorNearEqual(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVectorNotEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorNotEqual(a0, a1); o.put(r);  o.0 }),
    ("XMVectorNotEqualInt", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorNotEqualInt(a0, a1); o.put(r);  o.0 }),
    ("XMVectorGreater", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorGreater(a0, a1); o.put(r);  o.0 }),
    ("XMVectorGreaterR", false, |g| { let mut o = O::new(); let a0 = g.ou(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let r = XMVectorGreaterR(&mut *p0, a1, a2); o.put(r); o.put(*p0); o.0 }),
    ("XMVectorGreaterOrEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorGreaterOrEqual(a0, a1); o.put(r);  o.0 }),
    ("XMVectorGreaterOrEqualR", false, |g| { let mut o = O::new(); let a0 = g.ou(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let r = XMVectorGreaterOrEqualR(&mut *p0, a1, a2); o.put(r); o.put(*p0); o.0 }),
    ("XMVectorLess", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorLess(a0, a1); o.put(r);  o.0 }),
    ("XMVectorLessOrEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorLessOrEqual(a0, a1); o.put(r);  o.0 }),
    ("XMVectorInBounds", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorInBounds(a0, a1); o.put(r);  o.0 }),
    ("XMVectorInBoundsR", false, |g| { let mut o = O::new(); let a0 = g.ou(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let r = XMVectorInBoundsR(&mut *p0, a1, a2); o.put(r); o.put(*p0); o.0 }),
    ("XMVectorIsNaN", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorIsNaN(a0); o.put(r);  o.0 }),
    ("XMVectorIsInfinite", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorIsInfinite(a0); o.put(r);  o.0 }),
    ("XMVectorMin", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorMin(a0, a1); o.put(r);  o.0 }),
    ("XMVectorMax", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorMax(a0, a1); o.put(r);  o.0 }),
    ("XMVectorRound", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorRound(a0); o.put(r);  o.0 }),
    ("XMVectorTruncate", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorTruncate(a0); o.put(r);  o.0 }),
    ("XMVectorFloor", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorFloor(a0); o.put(r);  o.0 }),
    ("XMVectorCeiling", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorCeiling(a0); o.put(r);  o.0 }),
    ("XMVectorClamp", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVectorClamp(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVectorSaturate", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorSaturate(a0); o.put(r);  o.0 }),
    ("XMVectorAndInt", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorAndInt(a0, a1); o.put(r);  o.0 }),
    ("XMVectorAndCInt", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorAndCInt(a0, a1); o.put(r);  o.0 }),
    ("XMVectorOrInt", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorOrInt(a0, a1); o.put(r);  o.0 }),
    ("XMVectorNorInt", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorNorInt(a0, a1); o.put(r);  o.0 }),
    ("XMVectorXorInt", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorXorInt(a0, a1); o.put(r);  o.0 }),
    ("XMVectorNegate", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorNegate(a0); o.put(r);  o.0 }),
    ("XMVectorAdd", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorAdd(a0, a1); o.put(r);  o.0 }),
    ("XMVectorSum", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorSum(a0); o.put(r);  o.0 }),
    ("XMVectorAddAngles", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorAddAngles(a0, a1); o.put(r);  o.0 }),
    ("XMVectorSubtract", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorSubtract(a0, a1); o.put(r);  o.0 }),
    ("XMVectorSubtractAngles", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorSubtractAngles(a0, a1); o.put(r);  o.0 }),
    ("XMVectorMultiply", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorMultiply(a0, a1); o.put(r);  o.0 }),
    ("XMVectorMultiplyAdd", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVectorMultiplyAdd(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVectorDivide", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorDivide(a0, a1); o.put(r);  o.0 }),
    ("XMVectorNegativeMultiplySubtract", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVectorNegativeMultiplySubtract(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVectorScale", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let r = XMVectorScale(a0, a1); o.put(r);  o.0 }),
    ("XMVectorReciprocalEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorReciprocalEst(a0); o.put(r);  o.0 }),
    ("XMVectorReciprocal", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorReciprocal(a0); o.put(r);  o.0 }),
    ("XMVectorSqrtEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorSqrtEst(a0); o.put(r);  o.0 }),
    ("XMVectorSqrt", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorSqrt(a0); o.put(r);  o.0 }),
    ("XMVectorReciprocalSqrtEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorReciprocalSqrtEst(a0); o.put(r);  o.0 }),
    ("XMVectorReciprocalSqrt", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorReciprocalSqrt(a0); o.put(r);  o.0 }),
    ("XMVectorExp2", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorExp2(a0); o.put(r);  o.0 }),
    ("XMVectorExp", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorExp(a0); o.put(r);  o.0 }),
    ("XMVectorPow", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorPow(a0, a1); o.put(r);  o.0 }),
    ("XMVectorAbs", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorAbs(a0); o.put(r);  o.0 }),
    ("XMVectorMod", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorMod(a0, a1); o.put(r);  o.0 }),
    ("XMVectorModAngles", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorModAngles(a0); o.put(r);  o.0 }),
    ("XMVectorSin", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorSin(a0); o.put(r);  o.0 }),
    ("XMVectorCos", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorCos(a0); o.put(r);  o.0 }),
    ("XMVectorSinCos", false, |g| { let mut o = O::new(); let a0 = g.ov(); let p0 = g.place(a0); let a1 = g.ov(); let p1 = g.place(a1); let a2 = g.v(); XMVectorSinCos(&mut *p0, &mut *p1, a2); o.put(*p0); o.put(*p1); o.0 }),
    ("XMVectorTan", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorTan(a0); o.put(r);  o.0 }),
    ("XMVectorSinH", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorSinH(a0); o.put(r);  o.0 }),
    ("XMVectorCosH", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorCosH(a0); o.put(r);  o.0 }),
    ("XMVectorTanH", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorTanH(a0); o.put(r);  o.0 }),
    ("XMVectorASin", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorASin(a0); o.put(r);  o.0 }),
    ("XMVectorACos", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorACos(a0); o.put(r);  o.0 }),
    ("XMVectorATan", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorATan(a0); o.put(r);  o.0 }),
    ("XMVectorATan2", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorATan2(a0, a1); o.put(r);  o.0 }),
    ("XMVectorSinEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorSinEst(a0); o.put(r);  o.0 }),
    ("XMVectorCosEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorCosEst(a0); o.put(r);  o.0 }),
    ("XMVectorSinCosEst", false, |g| { let mut o = O::new(); let a0 = g.ov(); let p0 = g.place(a0); let a1 = g.ov(); let p1 = g.place(a1); let a2 = g.v(); XMVectorSinCosEst(&mut *p0, &mut *p1, a2); o.put(*p0); o.put(*p1); o.0 }),
    ("XMVectorTanEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorTanEst(a0); o.put(r);  o.0 }),
    ("XMVectorASinEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorASinEst(a0); o.put(r);  o.0 }),
    ("XMVectorACosEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorACosEst(a0); o.put(r);  o.0 }),
    ("XMVectorATanEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVectorATanEst(a0); o.put(r);  o.0 }),
    ("XMVectorATan2Est", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVectorATan2Est(a0, a1); o.put(r);  o.0 }),
    ("XMVectorLerp", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.f(); let r = XMVectorLerp(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVectorLerpV", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVectorLerpV(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVectorHermite", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.f(); let r = XMVectorHermite(a0, a1, a2, a3, a4); o.put(r);  o.0 }),
    ("XMVectorHermiteV", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.v(); let r = XMVectorHermiteV(a0, a1, a2, a3, a4); o.put(r);  o.0 }),
    ("XMVectorCatmullRom", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.f(); let r = XMVectorCatmullRom(a0, a1, a2, a3, a4); o.put(r);  o.0 }),
    ("XMVectorCatmullRomV", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.v(); let r = XMVectorCatmullRomV(a0, a1, a2, a3, a4); o.put(r);  o.0 }),
    ("XMVectorBaryCentric", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.f(); let a4 = g.f(); let r = XMVectorBaryCentric(a0, a1, a2, a3, a4); o.put(r);  o.0 }),
    ("XMVectorBaryCentricV", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.v(); let r = XMVectorBaryCentricV(a0, a1, a2, a3, a4); o.put(r);  o.0 }),
    ("XMVector2Equal", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2Equal(a0, a1); o.put(r);  o.0 }),
    ("XMVector2EqualR", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2EqualR(a0, a1); o.put(r);  o.0 }),
    ("XMVector2EqualInt", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2EqualInt(a0, a1); o.put(r);  o.0 }),
    ("XMVector2EqualIntR", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2EqualIntR(a0, a1); o.put(r);  o.0 }),
    ("XMVector2NearEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVector2NearEqual(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector2NotEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2NotEqual(a0, a1); o.put(r);  o.0 }),
    ("XMVector2NotEqualInt", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2NotEqualInt(a0, a1); o.put(r);  o.0 }),
    ("XMVector2Greater", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2Greater(a0, a1); o.put(r);  o.0 }),
    ("XMVector2GreaterR", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2GreaterR(a0, a1); o.put(r);  o.0 }),
    ("XMVector2GreaterOrEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2GreaterOrEqual(a0, a1); o.put(r);  o.0 }),
    ("XMVector2GreaterOrEqualR", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2GreaterOrEqualR(a0, a1); o.put(r);  o.0 }),
    ("XMVector2Less", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2Less(a0, a1); o.put(r);  o.0 }),
    ("XMVector2LessOrEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2LessOrEqual(a0, a1); o.put(r);  o.0 }),
    ("XMVector2InBounds", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2InBounds(a0, a1); o.put(r);  o.0 }),
    ("XMVector2IsNaN", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector2IsNaN(a0); o.put(r);  o.0 }),
    ("XMVector2IsInfinite", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector2IsInfinite(a0); o.put(r);  o.0 }),
    ("XMVector2Dot", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2Dot(a0, a1); o.put(r);  o.0 }),
    ("XMVector2Cross", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2Cross(a0, a1); o.put(r);  o.0 }),
    ("XMVector2LengthSq", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector2LengthSq(a0); o.put(r);  o.0 }),
    ("XMVector2ReciprocalLengthEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector2ReciprocalLengthEst(a0); o.put(r);  o.0 }),
    ("XMVector2ReciprocalLength", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector2ReciprocalLength(a0); o.put(r);  o.0 }),
    ("XMVector2LengthEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector2LengthEst(a0); o.put(r);  o.0 }),
    ("XMVector2Length", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector2Length(a0); o.put(r);  o.0 }),
    ("XMVector2NormalizeEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector2NormalizeEst(a0); o.put(r);  o.0 }),
    ("XMVector2Normalize", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector2Normalize(a0); o.put(r);  o.0 }),
    ("XMVector2ClampLength", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let a2 = g.f(); let r = XMVector2ClampLength(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector2ClampLengthV", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVector2ClampLengthV(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector2Reflect", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2Reflect(a0, a1); o.put(r);  o.0 }),
    ("XMVector2Refract", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.f(); let r = XMVector2Refract(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector2RefractV", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVector2RefractV(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector2Orthogonal", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector2Orthogonal(a0); o.put(r);  o.0 }),
    ("XMVector2AngleBetweenNormalsEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2AngleBetweenNormalsEst(a0, a1); o.put(r);  o.0 }),
    ("XMVector2AngleBetweenNormals", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2AngleBetweenNormals(a0, a1); o.put(r);  o.0 }),
    ("XMVector2AngleBetweenVectors", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector2AngleBetweenVectors(a0, a1); o.put(r);  o.0 }),
    ("XMVector2LinePointDistance", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVector2LinePointDistance(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector2IntersectLine", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let r = XMVector2IntersectLine(a0, a1, a2, a3); o.put(r);  o.0 }),
    ("XMVector2Transform", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.m(); let r = XMVector2Transform(a0, a1); o.put(r);  o.0 }),
    ("XMVector2TransformCoord", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.m(); let r = XMVector2TransformCoord(a0, a1); o.put(r);  o.0 }),
    ("XMVector2TransformNormal", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.m(); let r = XMVector2TransformNormal(a0, a1); o.put(r);  o.0 }),
    ("XMVector3Equal", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3Equal(a0, a1); o.put(r);  o.0 }),
    ("XMVector3EqualR", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3EqualR(a0, a1); o.put(r);  o.0 }),
    ("XMVector3EqualInt", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3EqualInt(a0, a1); o.put(r);  o.0 }),
    ("XMVector3EqualIntR", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3EqualIntR(a0, a1); o.put(r);  o.0 }),
    ("XMVector3NearEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVector3NearEqual(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector3NotEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3NotEqual(a0, a1); o.put(r);  o.0 }),
    ("XMVector3NotEqualInt", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3NotEqualInt(a0, a1); o.put(r);  o.0 }),
    ("XMVector3Greater", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3Greater(a0, a1); o.put(r);  o.0 }),
    ("XMVector3GreaterR", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3GreaterR(a0, a1); o.put(r);  o.0 }),
    ("XMVector3GreaterOrEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3GreaterOrEqual(a0, a1); o.put(r);  o.0 }),
    ("XMVector3GreaterOrEqualR", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3GreaterOrEqualR(a0, a1); o.put(r);  o.0 }),
    ("XMVector3Less", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3Less(a0, a1); o.put(r);  o.0 }),
    ("XMVector3LessOrEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3LessOrEqual(a0, a1); o.put(r);  o.0 }),
    ("XMVector3InBounds", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3InBounds(a0, a1); o.put(r);  o.0 }),
    ("XMVector3IsNaN", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector3IsNaN(a0); o.put(r);  o.0 }),
    ("XMVector3IsInfinite", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector3IsInfinite(a0); o.put(r);  o.0 }),
    ("XMVector3Dot", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3Dot(a0, a1); o.put(r);  o.0 }),
    ("XMVector3Cross", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3Cross(a0, a1); o.put(r);  o.0 }),
    ("XMVector3LengthSq", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector3LengthSq(a0); o.put(r);  o.0 }),
    ("XMVector3ReciprocalLengthEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector3ReciprocalLengthEst(a0); o.put(r);  o.0 }),
    ("XMVector3ReciprocalLength", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector3ReciprocalLength(a0); o.put(r);  o.0 }),
    ("XMVector3LengthEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector3LengthEst(a0); o.put(r);  o.0 }),
    ("XMVector3Length", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector3Length(a0); o.put(r);  o.0 }),
    ("XMVector3NormalizeEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector3NormalizeEst(a0); o.put(r);  o.0 }),
    ("XMVector3Normalize", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector3Normalize(a0); o.put(r);  o.0 }),
    ("XMVector3ClampLength", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let a2 = g.f(); let r = XMVector3ClampLength(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector3ClampLengthV", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVector3ClampLengthV(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector3Reflect", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3Reflect(a0, a1); o.put(r);  o.0 }),
    ("XMVector3Refract", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.f(); let r = XMVector3Refract(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector3RefractV", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVector3RefractV(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector3Orthogonal", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector3Orthogonal(a0); o.put(r);  o.0 }),
    ("XMVector3AngleBetweenNormalsEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3AngleBetweenNormalsEst(a0, a1); o.put(r);  o.0 }),
    ("XMVector3AngleBetweenNormals", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3AngleBetweenNormals(a0, a1); o.put(r);  o.0 }),
    ("XMVector3AngleBetweenVectors", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3AngleBetweenVectors(a0, a1); o.put(r);  o.0 }),
    ("XMVector3LinePointDistance", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVector3LinePointDistance(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector3ComponentsFromNormal", false, |g| { let mut o = O::new(); let a0 = g.ov(); let p0 = g.place(a0); let a1 = g.ov(); let p1 = g.place(a1); let a2 = g.v(); let a3 = g.v(); XMVector3ComponentsFromNormal(&mut *p0, &mut *p1, a2, a3); o.put(*p0); o.put(*p1); o.0 }),
    ("XMVector3Rotate", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3Rotate(a0, a1); o.put(r);  o.0 }),
    ("XMVector3InverseRotate", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector3InverseRotate(a0, a1); o.put(r);  o.0 }),
    ("XMVector3Transform", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.m(); let r = XMVector3Transform(a0, a1); o.put(r);  o.0 }),
    ("XMVector3TransformCoord", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.m(); let r = XMVector3TransformCoord(a0, a1); o.put(r);  o.0 }),
    ("XMVector3TransformNormal", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.m(); let r = XMVector3TransformNormal(a0, a1); o.put(r);  o.0 }),
    ("XMVector3Project", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let a2 = g.f(); let a3 = g.f(); let a4 = g.f(); let a5 = g.f(); let a6 = g.f(); let a7 = g.m(); let a8 = g.m(); let p8 = g.place(a8); let a9 = g.m(); let p9 = g.place(a9); let r = XMVector3Project(a0, a1, a2, a3, a4, a5, a6, a7, &*p8, &*p9); o.put(r); o.same(*p8, a8); o.same(*p9, a9); o.0 }),
    ("XMVector3Unproject", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let a2 = g.f(); let a3 = g.f(); let a4 = g.f(); let a5 = g.f(); let a6 = g.f(); let a7 = g.m(); let a8 = g.m(); let p8 = g.place(a8); let a9 = g.m(); let p9 = g.place(a9); let r = XMVector3Unproject(a0, a1, a2, a3, a4, a5, a6, a7, &*p8, &*p9); o.put(r); o.same(*p8, a8); o.same(*p9, a9); o.0 }),
    ("XMVector4Equal", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4Equal(a0, a1); o.put(r);  o.0 }),
    ("XMVector4EqualR", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4EqualR(a0, a1); o.put(r);  o.0 }),
    ("XMVector4EqualInt", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4EqualInt(a0, a1); o.put(r);  o.0 }),
    ("XMVector4EqualIntR", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4EqualIntR(a0, a1); o.put(r);  o.0 }),
    ("XMVector4NearEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVector4NearEqual(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector4NotEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4NotEqual(a0, a1); o.put(r);  o.0 }),
    ("XMVector4NotEqualInt", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4NotEqualInt(a0, a1); o.put(r);  o.0 }),
    ("XMVector4Greater", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4Greater(a0, a1); o.put(r);  o.0 }),
    ("XMVector4GreaterR", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4GreaterR(a0, a1); o.put(r);  o.0 }),
    ("XMVector4GreaterOrEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4GreaterOrEqual(a0, a1); o.put(r);  o.0 }),
    ("XMVector4GreaterOrEqualR", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4GreaterOrEqualR(a0, a1); o.put(r);  o.0 }),
    ("XMVector4Less", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4Less(a0, a1); o.put(r);  o.0 }),
    ("XMVector4LessOrEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4LessOrEqual(a0, a1); o.put(r);  o.0 }),
    ("XMVector4InBounds", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4InBounds(a0, a1); o.put(r);  o.0 }),
    ("XMVector4IsNaN", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector4IsNaN(a0); o.put(r);  o.0 }),
    ("XMVector4IsInfinite", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector4IsInfinite(a0); o.put(r);  o.0 }),
    ("XMVector4Dot", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4Dot(a0, a1); o.put(r);  o.0 }),
    ("XMVector4Cross", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVector4Cross(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector4LengthSq", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector4LengthSq(a0); o.put(r);  o.0 }),
    ("XMVector4ReciprocalLengthEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector4ReciprocalLengthEst(a0); o.put(r);  o.0 }),
    ("XMVector4ReciprocalLength", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector4ReciprocalLength(a0); o.put(r);  o.0 }),
    ("XMVector4LengthEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector4LengthEst(a0); o.put(r);  o.0 }),
    ("XMVector4Length", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector4Length(a0); o.put(r);  o.0 }),
    ("XMVector4NormalizeEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector4NormalizeEst(a0); o.put(r);  o.0 }),
    ("XMVector4Normalize", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector4Normalize(a0); o.put(r);  o.0 }),
    ("XMVector4ClampLength", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let a2 = g.f(); let r = XMVector4ClampLength(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector4ClampLengthV", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVector4ClampLengthV(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector4Reflect", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4Reflect(a0, a1); o.put(r);  o.0 }),
    ("XMVector4Refract", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.f(); let r = XMVector4Refract(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector4RefractV", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMVector4RefractV(a0, a1, a2); o.put(r);  o.0 }),
    ("XMVector4Orthogonal", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMVector4Orthogonal(a0); o.put(r);  o.0 }),
    ("XMVector4AngleBetweenNormalsEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4AngleBetweenNormalsEst(a0, a1); o.put(r);  o.0 }),
    ("XMVector4AngleBetweenNormals", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4AngleBetweenNormals(a0, a1); o.put(r);  o.0 }),
    ("XMVector4AngleBetweenVectors", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMVector4AngleBetweenVectors(a0, a1); o.put(r);  o.0 }),
    ("XMVector4Transform", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.m(); let r = XMVector4Transform(a0, a1); o.put(r);  o.0 }),
    ("XMMatrixIsNaN", false, |g| { let mut o = O::new(); let a0 = g.m(); let r = XMMatrixIsNaN(a0); o.put(r);  o.0 }),
    ("XMMatrixIsInfinite", false, |g| { let mut o = O::new(); let a0 = g.m(); let r = XMMatrixIsInfinite(a0); o.put(r);  o.0 }),
    ("XMMatrixIsIdentity", false, |g| { let mut o = O::new(); let a0 = g.m(); let r = XMMatrixIsIdentity(a0); o.put(r);  o.0 }),
    ("XMMatrixMultiply", false, |g| { let mut o = O::new(); let a0 = g.m(); let a1 = g.m(); let p1 = g.place(a1); let r = XMMatrixMultiply(a0, &*p1); o.put(r); o.same(*p1, a1); o.0 }),
    ("XMMatrixMultiplyTranspose", false, |g| { let mut o = O::new(); let a0 = g.m(); let a1 = g.m(); let p1 = g.place(a1); let r = XMMatrixMultiplyTranspose(a0, &*p1); o.put(r); o.same(*p1, a1); o.0 }),
    ("XMMatrixTranspose", false, |g| { let mut o = O::new(); let a0 = g.m(); let r = XMMatrixTranspose(a0); o.put(r);  o.0 }),
    ("XMMatrixInverse", false, |g| { let mut o = O::new(); let a0 = g.ov(); let p0 = g.place(a0); let a1 = g.m(); let r = XMMatrixInverse(Some(&mut *p0), a1); o.put(r); o.put(*p0); o.0 }),
    ("XMMatrixVectorTensorProduct", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMMatrixVectorTensorProduct(a0, a1); o.put(r);  o.0 }),
    ("XMMatrixDeterminant", false, |g| { let mut o = O::new(); let a0 = g.m(); let r = XMMatrixDeterminant(a0); o.put(r);  o.0 }),
    ("XMMatrixDecompose", false, |g| { let mut o = O::new(); let a0 = g.ov(); let p0 = g.place(a0); let a1 = g.ov(); let p1 = g.place(a1); let a2 = g.ov(); let p2 = g.place(a2); let a3 = g.m(); let r = XMMatrixDecompose(&mut *p0, &mut *p1, &mut *p2, a3); o.put(r); o.put(*p0); o.put(*p1); o.put(*p2); o.0 }),
    ("XMMatrixIdentity", false, |g| { let mut o = O::new();  let r = XMMatrixIdentity(); o.put(r);  o.0 }),
    ("XMMatrixSet", false, |g| { let mut o = O::new(); let a0 = g.f(); let a1 = g.f(); let a2 = g.f(); let a3 = g.f(); let a4 = g.f(); let a5 = g.f(); let a6 = g.f(); let a7 = g.f(); let a8 = g.f(); let a9 = g.f(); let a10 = g.f(); let a11 = g.f(); let a12 = g.f(); let a13 = g.f(); let a14 = g.f(); let a15 = g.f(); let r = XMMatrixSet(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); o.put(r);  o.0 }),
    ("XMMatrixTranslation", false, |g| { let mut o = O::new(); let a0 = g.f(); let a1 = g.f(); let a2 = g.f(); let r = XMMatrixTranslation(a0, a1, a2); o.put(r);  o.0 }),
    ("XMMatrixTranslationFromVector", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMMatrixTranslationFromVector(a0); o.put(r);  o.0 }),
    ("XMMatrixScaling", false, |g| { let mut o = O::new(); let a0 = g.f(); let a1 = g.f(); let a2 = g.f(); let r = XMMatrixScaling(a0, a1, a2); o.put(r);  o.0 }),
    ("XMMatrixScalingFromVector", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMMatrixScalingFromVector(a0); o.put(r);  o.0 }),
    ("XMMatrixRotationX", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMMatrixRotationX(a0); o.put(r);  o.0 }),
    ("XMMatrixRotationY", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMMatrixRotationY(a0); o.put(r);  o.0 }),
    ("XMMatrixRotationZ", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMMatrixRotationZ(a0); o.put(r);  o.0 }),
    ("XMMatrixRotationRollPitchYaw", false, |g| { let mut o = O::new(); let a0 = g.f(); let a1 = g.f(); let a2 = g.f(); let r = XMMatrixRotationRollPitchYaw(a0, a1, a2); o.put(r);  o.0 }),
    ("XMMatrixRotationRollPitchYawFromVector", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMMatrixRotationRollPitchYawFromVector(a0); o.put(r);  o.0 }),
    ("XMMatrixRotationNormal", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let r = XMMatrixRotationNormal(a0, a1); o.put(r);  o.0 }),
    ("XMMatrixRotationAxis", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let r = XMMatrixRotationAxis(a0, a1); o.put(r);  o.0 }),
    ("XMMatrixRotationQuaternion", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMMatrixRotationQuaternion(a0); o.put(r);  o.0 }),
    ("XMMatrixTransformation2D", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let a2 = g.v(); let a3 = g.v(); let a4 = g.f(); let a5 = g.v(); let r = XMMatrixTransformation2D(a0, a1, a2, a3, a4, a5); o.put(r);  o.0 }),
    ("XMMatrixTransformation", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.v(); let a5 = g.v(); let r = XMMatrixTransformation(a0, a1, a2, a3, a4, a5); o.put(r);  o.0 }),
    ("XMMatrixAffineTransformation2D", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.f(); let a3 = g.v(); let r = XMMatrixAffineTransformation2D(a0, a1, a2, a3); o.put(r);  o.0 }),
    ("XMMatrixAffineTransformation", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let r = XMMatrixAffineTransformation(a0, a1, a2, a3); o.put(r);  o.0 }),
    ("XMMatrixReflect", true, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMMatrixReflect(a0); o.put(r);  o.0 }),
    ("XMMatrixShadow", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMMatrixShadow(a0, a1); o.put(r);  o.0 }),
    ("XMMatrixLookAtLH", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMMatrixLookAtLH(a0, a1, a2); o.put(r);  o.0 }),
    ("XMMatrixLookAtRH", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMMatrixLookAtRH(a0, a1, a2); o.put(r);  o.0 }),
    ("XMMatrixLookToLH", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMMatrixLookToLH(a0, a1, a2); o.put(r);  o.0 }),
    ("XMMatrixLookToRH", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMMatrixLookToRH(a0, a1, a2); o.put(r);  o.0 }),
    ("XMMatrixPerspectiveLH", true, |g| { let mut o = O::new(); let a0 = g.f(); let a1 = g.f(); let a2 = g.f(); let a3 = g.f(); let r = XMMatrixPerspectiveLH(a0, a1, a2, a3); o.put(r);  o.0 }),
    ("XMMatrixPerspectiveRH", true, |g| { let mut o = O::new(); let a0 = g.f(); let a1 = g.f(); let a2 = g.f(); let a3 = g.f(); let r = XMMatrixPerspectiveRH(a0, a1, a2, a3); o.put(r);  o.0 }),
    ("XMMatrixPerspectiveFovLH", true, |g| { let mut o = O::new(); let a0 = g.f(); let a1 = g.f(); let a2 = g.f(); let a3 = g.f(); let r = XMMatrixPerspectiveFovLH(a0, a1, a2, a3); o.put(r);  o.0 }),
    ("XMMatrixPerspectiveFovRH", true, |g| { let mut o = O::new(); let a0 = g.f(); let a1 = g.f(); let a2 = g.f(); let a3 = g.f(); let r = XMMatrixPerspectiveFovRH(a0, a1, a2, a3); o.put(r);  o.0 }),
    ("XMMatrixPerspectiveOffCenterLH", true, |g| { let mut o = O::new(); let a0 = g.f(); let a1 = g.f(); let a2 = g.f(); let a3 = g.f(); let a4 = g.f(); let a5 = g.f(); let r = XMMatrixPerspectiveOffCenterLH(a0, a1, a2, a3, a4, a5); o.put(r);  o.0 }),
    ("XMMatrixPerspectiveOffCenterRH", true, |g| { let mut o = O::new(); let a0 = g.f(); let a1 = g.f(); let a2 = g.f(); let a3 = g.f(); let a4 = g.f(); let a5 = g.f(); let r = XMMatrixPerspectiveOffCenterRH(a0, a1, a2, a3, a4, a5); o.put(r);  o.0 }),
    ("XMMatrixOrthographicLH", true, |g| { let mut o = O::new(); let a0 = g.f(); let a1 = g.f(); let a2 = g.f(); let a3 = g.f(); let r = XMMatrixOrthographicLH(a0, a1, a2, a3); o.put(r);  o.0 }),
    ("XMMatrixOrthographicRH", true, |g| { let mut o = O::new(); let a0 = g.f(); let a1 = g.f(); let a2 = g.f(); let a3 = g.f(); let r = XMMatrixOrthographicRH(a0, a1, a2, a3); o.put(r);  o.0 }),
    ("XMQuaternionEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMQuaternionEqual(a0, a1); o.put(r);  o.0 }),
    ("XMQuaternionNotEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMQuaternionNotEqual(a0, a1); o.put(r);  o.0 }),
    ("XMQuaternionIsNaN", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMQuaternionIsNaN(a0); o.put(r);  o.0 }),
    ("XMQuaternionIsInfinite", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMQuaternionIsInfinite(a0); o.put(r);  o.0 }),
    ("XMQuaternionIsIdentity", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMQuaternionIsIdentity(a0); o.put(r);  o.0 }),
    ("XMQuaternionDot", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMQuaternionDot(a0, a1); o.put(r);  o.0 }),
    ("XMQuaternionMultiply", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMQuaternionMultiply(a0, a1); o.put(r);  o.0 }),
    ("XMQuaternionLengthSq", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMQuaternionLengthSq(a0); o.put(r);  o.0 }),
    ("XMQuaternionReciprocalLength", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMQuaternionReciprocalLength(a0); o.put(r);  o.0 }),
    ("XMQuaternionLength", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMQuaternionLength(a0); o.put(r);  o.0 }),
    ("XMQuaternionNormalizeEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMQuaternionNormalizeEst(a0); o.put(r);  o.0 }),
    ("XMQuaternionNormalize", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMQuaternionNormalize(a0); o.put(r);  o.0 }),
    ("XMQuaternionConjugate", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMQuaternionConjugate(a0); o.put(r);  o.0 }),
    ("XMQuaternionInverse", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMQuaternionInverse(a0); o.put(r);  o.0 }),
    ("XMQuaternionLn", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMQuaternionLn(a0); o.put(r);  o.0 }),
    ("XMQuaternionExp", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMQuaternionExp(a0); o.put(r);  o.0 }),
    ("XMQuaternionSlerp", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.f(); let r = XMQuaternionSlerp(a0, a1, a2); o.put(r);  o.0 }),
    ("XMQuaternionSlerpV", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMQuaternionSlerpV(a0, a1, a2); o.put(r);  o.0 }),
    ("XMQuaternionSquad", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.f(); let r = XMQuaternionSquad(a0, a1, a2, a3, a4); o.put(r);  o.0 }),
    ("XMQuaternionSquadV", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.v(); let r = XMQuaternionSquadV(a0, a1, a2, a3, a4); o.put(r);  o.0 }),
    ("XMQuaternionSquadSetup", false, |g| { let mut o = O::new(); let a0 = g.ov(); let p0 = g.place(a0); let a1 = g.ov(); let p1 = g.place(a1); let a2 = g.ov(); let p2 = g.place(a2); let a3 = g.v(); let a4 = g.v(); let a5 = g.v(); let a6 = g.v(); XMQuaternionSquadSetup(&mut *p0, &mut *p1, &mut *p2, a3, a4, a5, a6); o.put(*p0); o.put(*p1); o.put(*p2); o.0 }),
    ("XMQuaternionBaryCentric", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.f(); let a4 = g.f(); let r = XMQuaternionBaryCentric(a0, a1, a2, a3, a4); o.put(r);  o.0 }),
    ("XMQuaternionBaryCentricV", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.v(); let r = XMQuaternionBaryCentricV(a0, a1, a2, a3, a4); o.put(r);  o.0 }),
    ("XMQuaternionIdentity", false, |g| { let mut o = O::new();  let r = XMQuaternionIdentity(); o.put(r);  o.0 }),
    ("XMQuaternionRotationRollPitchYaw", false, |g| { let mut o = O::new(); let a0 = g.f(); let a1 = g.f(); let a2 = g.f(); let r = XMQuaternionRotationRollPitchYaw(a0, a1, a2); o.put(r);  o.0 }),
    ("XMQuaternionRotationRollPitchYawFromVector", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMQuaternionRotationRollPitchYawFromVector(a0); o.put(r);  o.0 }),
    ("XMQuaternionRotationNormal", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let r = XMQuaternionRotationNormal(a0, a1); o.put(r);  o.0 }),
    ("XMQuaternionRotationAxis", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.f(); let r = XMQuaternionRotationAxis(a0, a1); o.put(r);  o.0 }),
    ("XMQuaternionRotationMatrix", false, |g| { let mut o = O::new(); let a0 = g.m(); let r = XMQuaternionRotationMatrix(a0); o.put(r);  o.0 }),
    ("XMQuaternionToAxisAngle", false, |g| { let mut o = O::new(); let a0 = g.ov(); let p0 = g.place(a0); let a1 = g.of(); let p1 = g.place(a1); let a2 = g.v(); XMQuaternionToAxisAngle(&mut *p0, &mut *p1, a2); o.put(*p0); o.put(*p1); o.0 }),
    ("XMPlaneEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMPlaneEqual(a0, a1); o.put(r);  o.0 }),
    ("XMPlaneNearEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMPlaneNearEqual(a0, a1, a2); o.put(r);  o.0 }),
    ("XMPlaneNotEqual", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMPlaneNotEqual(a0, a1); o.put(r);  o.0 }),
    ("XMPlaneIsNaN", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMPlaneIsNaN(a0); o.put(r);  o.0 }),
    ("XMPlaneIsInfinite", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMPlaneIsInfinite(a0); o.put(r);  o.0 }),
    ("XMPlaneDot", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMPlaneDot(a0, a1); o.put(r);  o.0 }),
    ("XMPlaneDotCoord", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMPlaneDotCoord(a0, a1); o.put(r);  o.0 }),
    ("XMPlaneDotNormal", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMPlaneDotNormal(a0, a1); o.put(r);  o.0 }),
    ("XMPlaneNormalizeEst", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMPlaneNormalizeEst(a0); o.put(r);  o.0 }),
    ("XMPlaneNormalize", false, |g| { let mut o = O::new(); let a0 = g.v(); let r = XMPlaneNormalize(a0); o.put(r);  o.0 }),
    ("XMPlaneIntersectLine", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMPlaneIntersectLine(a0, a1, a2); o.put(r);  o.0 }),
    ("XMPlaneIntersectPlane", false, |g| { let mut o = O::new(); let a0 = g.ov(); let p0 = g.place(a0); let a1 = g.ov(); let p1 = g.place(a1); let a2 = g.v(); let a3 = g.v(); XMPlaneIntersectPlane(&mut *p0, &mut *p1, a2, a3); o.put(*p0); o.put(*p1); o.0 }),
    ("XMPlaneTransform", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.m(); let r = XMPlaneTransform(a0, a1); o.put(r);  o.0 }),
    ("XMPlaneFromPointNormal", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMPlaneFromPointNormal(a0, a1); o.put(r);  o.0 }),
    ("XMPlaneFromPoints", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let r = XMPlaneFromPoints(a0, a1, a2); o.put(r);  o.0 }),
    ("XMFresnelTerm", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let r = XMFresnelTerm(a0, a1); o.put(r);  o.0 }),
    ("XMScalarNearEqual", false, |g| { let mut o = O::new(); let a0 = g.f(); let a1 = g.f(); let a2 = g.f(); let r = XMScalarNearEqual(a0, a1, a2); o.put(r);  o.0 }),
    ("XMScalarModAngle", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMScalarModAngle(a0); o.put(r);  o.0 }),
    ("XMScalarSin", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMScalarSin(a0); o.put(r);  o.0 }),
    ("XMScalarSinEst", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMScalarSinEst(a0); o.put(r);  o.0 }),
    ("XMScalarCos", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMScalarCos(a0); o.put(r);  o.0 }),
    ("XMScalarCosEst", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMScalarCosEst(a0); o.put(r);  o.0 }),
    ("XMScalarSinCos", false, |g| { let mut o = O::new(); let a0 = g.of(); let p0 = g.place(a0); let a1 = g.of(); let p1 = g.place(a1); let a2 = g.f(); XMScalarSinCos(&mut *p0, &mut *p1, a2); o.put(*p0); o.put(*p1); o.0 }),
    ("XMScalarSinCosEst", false, |g| { let mut o = O::new(); let a0 = g.of(); let p0 = g.place(a0); let a1 = g.of(); let p1 = g.place(a1); let a2 = g.f(); XMScalarSinCosEst(&mut *p0, &mut *p1, a2); o.put(*p0); o.put(*p1); o.0 }),
    ("XMScalarASin", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMScalarASin(a0); o.put(r);  o.0 }),
    ("XMScalarASinEst", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMScalarASinEst(a0); o.put(r);  o.0 }),
    ("XMScalarACos", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMScalarACos(a0); o.put(r);  o.0 }),
    ("XMScalarACosEst", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMScalarACosEst(a0); o.put(r);  o.0 }),
    ("XMConvertVectorIntToFloat", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.idx(32); let r = XMConvertVectorIntToFloat(a0, a1); o.put(r);  o.0 }),
    ("XMConvertVectorFloatToInt", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.idx(32); let r = XMConvertVectorFloatToInt(a0, a1); o.put(r);  o.0 }),
    ("XMConvertVectorUIntToFloat", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.idx(32); let r = XMConvertVectorUIntToFloat(a0, a1); o.put(r);  o.0 }),
    ("XMConvertVectorFloatToUInt", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.idx(32); let r = XMConvertVectorFloatToUInt(a0, a1); o.put(r);  o.0 }),
    ("XMLoadInt2", false, |g| { let mut o = O::new(); let a0 = g.us::<2>(); let p0 = g.place(a0); let r = XMLoadInt2(&*p0); o.put(r); o.same(*p0, a0); o.0 }),
    ("XMLoadFloat2", false, |g| { let mut o = O::new(); let a0 = XMFLOAT2::from(g.fs::<2>()); let p0 = g.place(a0); let r = XMLoadFloat2(&*p0); o.put(r); o.same(*p0, a0); o.0 }),
    ("XMLoadInt3", false, |g| { let mut o = O::new(); let a0 = g.us::<3>(); let p0 = g.place(a0); let r = XMLoadInt3(&*p0); o.put(r); o.same(*p0, a0); o.0 }),
    ("XMLoadFloat3", false, |g| { let mut o = O::new(); let a0 = XMFLOAT3::from(g.fs::<3>()); let p0 = g.place(a0); let r = XMLoadFloat3(&*p0); o.put(r); o.same(*p0, a0); o.0 }),
    ("XMLoadFloat3A", false, |g| { let mut o = O::new(); let a0 = Align16(XMFLOAT3::from(g.fs::<3>())); let p0 = g.place(a0); let r = XMLoadFloat3A(&*p0); o.put(r); o.same(*p0, a0); o.0 }),
    ("XMLoadInt4", false, |g| { let mut o = O::new(); let a0 = g.us::<4>(); let p0 = g.place(a0); let r = XMLoadInt4(&*p0); o.put(r); o.same(*p0, a0); o.0 }),
    ("XMLoadFloat4", false, |g| { let mut o = O::new(); let a0 = XMFLOAT4::from(g.fs::<4>()); let p0 = g.place(a0); let r = XMLoadFloat4(&*p0); o.put(r); o.same(*p0, a0); o.0 }),
    ("XMLoadFloat4A", false, |g| { let mut o = O::new(); let a0 = Align16(XMFLOAT4::from(g.fs::<4>())); let p0 = g.place(a0); let r = XMLoadFloat4A(&*p0); o.put(r); o.same(*p0, a0); o.0 }),
    ("XMLoadFloat3x3", false, |g| { let mut o = O::new(); let a0 = XMFLOAT3X3::from(g.fs::<9>()); let p0 = g.place(a0); let r = XMLoadFloat3x3(&*p0); o.put(r); o.same(*p0, a0); o.0 }),
    ("XMLoadFloat4x3", false, |g| { let mut o = O::new(); let a0 = XMFLOAT4X3::from(g.fs::<12>()); let p0 = g.place(a0); let r = XMLoadFloat4x3(&*p0); o.put(r); o.same(*p0, a0); o.0 }),
    ("XMLoadFloat3x4", false, |g| { let mut o = O::new(); let a0 = XMFLOAT3X4::from(g.fs::<12>()); let p0 = g.place(a0); let r = XMLoadFloat3x4(&*p0); o.put(r); o.same(*p0, a0); o.0 }),
    ("XMLoadFloat4x4", false, |g| { let mut o = O::new(); let a0 = XMFLOAT4X4::from(g.fs::<16>()); let p0 = g.place(a0); let r = XMLoadFloat4x4(&*p0); o.put(r); o.same(*p0, a0); o.0 }),
    ("XMLoadFloat4x4A", false, |g| { let mut o = O::new(); let a0 = Align16(XMFLOAT4X4::from(g.fs::<16>())); let p0 = g.place(a0); let r = XMLoadFloat4x4A(&*p0); o.put(r); o.same(*p0, a0); o.0 }),
    ("XMStoreFloat", false, |g| { let mut o = O::new(); let a0 = g.of(); let p0 = g.place(a0); let a1 = g.v(); XMStoreFloat(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMStoreInt2", false, |g| { let mut o = O::new(); let a0 = g.ous::<2>(); let p0 = g.place(a0); let a1 = g.v(); XMStoreInt2(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMStoreFloat2", false, |g| { let mut o = O::new(); let a0 = XMFLOAT2::from(g.ofs::<2>()); let p0 = g.place(a0); let a1 = g.v(); XMStoreFloat2(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMStoreInt3", false, |g| { let mut o = O::new(); let a0 = g.ous::<3>(); let p0 = g.place(a0); let a1 = g.v(); XMStoreInt3(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMStoreFloat3", false, |g| { let mut o = O::new(); let a0 = XMFLOAT3::from(g.ofs::<3>()); let p0 = g.place(a0); let a1 = g.v(); XMStoreFloat3(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMStoreFloat3A", false, |g| { let mut o = O::new(); let a0 = Align16(XMFLOAT3::from(g.ofs::<3>())); let p0 = g.place(a0); let a1 = g.v(); XMStoreFloat3A(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMStoreInt4", false, |g| { let mut o = O::new(); let a0 = g.ous::<4>(); let p0 = g.place(a0); let a1 = g.v(); XMStoreInt4(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMStoreFloat4", false, |g| { let mut o = O::new(); let a0 = XMFLOAT4::from(g.ofs::<4>()); let p0 = g.place(a0); let a1 = g.v(); XMStoreFloat4(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMStoreFloat4A", false, |g| { let mut o = O::new(); let a0 = Align16(XMFLOAT4::from(g.ofs::<4>())); let p0 = g.place(a0); let a1 = g.v(); XMStoreFloat4A(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMStoreFloat3x3", false, |g| { let mut o = O::new(); let a0 = XMFLOAT3X3::from(g.ofs::<9>()); let p0 = g.place(a0); let a1 = g.m(); XMStoreFloat3x3(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMStoreFloat4x3", false, |g| { let mut o = O::new(); let a0 = XMFLOAT4X3::from(g.ofs::<12>()); let p0 = g.place(a0); let a1 = g.m(); XMStoreFloat4x3(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMStoreFloat3x4", false, |g| { let mut o = O::new(); let a0 = XMFLOAT3X4::from(g.ofs::<12>()); let p0 = g.place(a0); let a1 = g.m(); XMStoreFloat3x4(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMStoreFloat4x4", false, |g| { let mut o = O::new(); let a0 = XMFLOAT4X4::from(g.ofs::<16>()); let p0 = g.place(a0); let a1 = g.m(); XMStoreFloat4x4(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMStoreFloat4x4A", false, |g| { let mut o = O::new(); let a0 = Align16(XMFLOAT4X4::from(g.ofs::<16>())); let p0 = g.place(a0); let a1 = g.m(); XMStoreFloat4x4A(&mut *p0, a1); o.put(*p0); o.0 }),
    ("XMConvertHalfToFloat", false, |g| { let mut o = O::new(); let a0 = g.u() as u16; let r = XMConvertHalfToFloat(a0); o.put(r);  o.0 }),
    ("XMConvertFloatToHalf", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMConvertFloatToHalf(a0); o.put(r);  o.0 }),
    ("BoundingSphere::TransformMatrix", false, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.oBoundingSphere(); let p1 = g.place(a1); let a2 = g.m(); p0.TransformMatrix(&mut *p1, a2); o.same(*p0, a0); o.put(*p1); o.0 }),
    ("BoundingSphere::TransformDecomposed", false, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.oBoundingSphere(); let p1 = g.place(a1); let a2 = g.f(); let a3 = g.v(); let a4 = g.v(); p0.TransformDecomposed(&mut *p1, a2, a3, a4); o.same(*p0, a0); o.put(*p1); o.0 }),
    ("BoundingSphere::ContainsPoint", false, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.v(); let r = p0.ContainsPoint(a1); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingSphere::ContainsTriangle", false, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let r = p0.ContainsTriangle(a1, a2, a3); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingSphere::ContainsSphere", false, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.BoundingSphere(); let p1 = g.place(a1); let r = p0.ContainsSphere(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingSphere::ContainsBox", false, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.BoundingBox(); let p1 = g.place(a1); let r = p0.ContainsBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingSphere::ContainsOrientedBox", true, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.BoundingOrientedBox(); let p1 = g.place(a1); let r = p0.ContainsOrientedBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingSphere::ContainsFrustum", true, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.BoundingFrustum(); let p1 = g.place(a1); let r = p0.ContainsFrustum(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingSphere::IntersectsSphere", false, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.BoundingSphere(); let p1 = g.place(a1); let r = p0.IntersectsSphere(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingSphere::IntersectsBox", false, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.BoundingBox(); let p1 = g.place(a1); let r = p0.IntersectsBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingSphere::IntersectsOrientedBox", false, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.BoundingOrientedBox(); let p1 = g.place(a1); let r = p0.IntersectsOrientedBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingSphere::IntersectsFrustum", false, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.BoundingFrustum(); let p1 = g.place(a1); let r = p0.IntersectsFrustum(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingSphere::IntersectsTriangle", true, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let r = p0.IntersectsTriangle(a1, a2, a3); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingSphere::IntersectsPlane", true, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.v(); let r = p0.IntersectsPlane(a1); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingSphere::IntersectsRay", true, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.of(); let p3 = g.place(a3); let r = p0.IntersectsRay(a1, a2, &mut *p3); o.put(r); o.same(*p0, a0); o.put(*p3); o.0 }),
    ("BoundingSphere::ContainedBy", false, |g| { let mut o = O::new(); let a0 = g.BoundingSphere(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.v(); let a5 = g.v(); let a6 = g.v(); let r = p0.ContainedBy(a1, a2, a3, a4, a5, a6); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingSphere::CreateMerged", false, |g| { let mut o = O::new(); let a0 = g.oBoundingSphere(); let p0 = g.place(a0); let a1 = g.BoundingSphere(); let p1 = g.place(a1); let a2 = g.BoundingSphere(); let p2 = g.place(a2); BoundingSphere::CreateMerged(&mut *p0, &*p1, &*p2); o.put(*p0); o.same(*p1, a1); o.same(*p2, a2); o.0 }),
    ("BoundingSphere::CreateFromBoundingBox", false, |g| { let mut o = O::new(); let a0 = g.oBoundingSphere(); let p0 = g.place(a0); let a1 = g.BoundingBox(); let p1 = g.place(a1); BoundingSphere::CreateFromBoundingBox(&mut *p0, &*p1); o.put(*p0); o.same(*p1, a1); o.0 }),
    ("BoundingSphere::CreateFromBoundingOrientedBox", false, |g| { let mut o = O::new(); let a0 = g.oBoundingSphere(); let p0 = g.place(a0); let a1 = g.BoundingOrientedBox(); let p1 = g.place(a1); BoundingSphere::CreateFromBoundingOrientedBox(&mut *p0, &*p1); o.put(*p0); o.same(*p1, a1); o.0 }),
    ("BoundingSphere::CreateFromPoints", false, |g| { let mut o = O::new(); let a0 = g.oBoundingSphere(); let p0 = g.place(a0); let k1 = g.pts(); let a1 = g.place_slice(&k1); BoundingSphere::CreateFromPoints(&mut *p0, a1.iter()); o.put(*p0); for (x, y) in k1.iter().zip(a1.iter()) { o.same(*x, *y); } o.0 }),
    ("BoundingSphere::CreateFromFrustum", false, |g| { let mut o = O::new(); let a0 = g.oBoundingSphere(); let p0 = g.place(a0); let a1 = g.BoundingFrustum(); let p1 = g.place(a1); BoundingSphere::CreateFromFrustum(&mut *p0, &*p1); o.put(*p0); o.same(*p1, a1); o.0 }),
    ("BoundingBox::GetCorners", false, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = [XMFLOAT3::from(g.ofs::<3>()); 8]; let p1 = g.place(a1); p0.GetCorners(&mut *p1); o.same(*p0, a0); o.put(*p1); o.0 }),
    ("BoundingBox::TransformMatrix", false, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.oBoundingBox(); let p1 = g.place(a1); let a2 = g.m(); p0.TransformMatrix(&mut *p1, a2); o.same(*p0, a0); o.put(*p1); o.0 }),
    ("BoundingBox::TransformDecomposed", true, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.oBoundingBox(); let p1 = g.place(a1); let a2 = g.f(); let a3 = g.v(); let a4 = g.v(); p0.TransformDecomposed(&mut *p1, a2, a3, a4); o.same(*p0, a0); o.put(*p1); o.0 }),
    ("BoundingBox::ContainsPoint", false, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.v(); let r = p0.ContainsPoint(a1); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingBox::ContainsTriangle", false, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let r = p0.ContainsTriangle(a1, a2, a3); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingBox::ContainsSphere", false, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.BoundingSphere(); let p1 = g.place(a1); let r = p0.ContainsSphere(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingBox::ContainsBox", false, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.BoundingBox(); let p1 = g.place(a1); let r = p0.ContainsBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingBox::ContainsOrientedBox", true, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.BoundingOrientedBox(); let p1 = g.place(a1); let r = p0.ContainsOrientedBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingBox::ContainsFrustum", false, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.BoundingFrustum(); let p1 = g.place(a1); let r = p0.ContainsFrustum(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingBox::IntersectsSphere", false, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.BoundingSphere(); let p1 = g.place(a1); let r = p0.IntersectsSphere(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingBox::IntersectsBox", false, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.BoundingBox(); let p1 = g.place(a1); let r = p0.IntersectsBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingBox::IntersectsOrientedBox", false, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.BoundingOrientedBox(); let p1 = g.place(a1); let r = p0.IntersectsOrientedBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingBox::IntersectsFrustum", false, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.BoundingFrustum(); let p1 = g.place(a1); let r = p0.IntersectsFrustum(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingBox::IntersectsTriangle", true, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let r = p0.IntersectsTriangle(a1, a2, a3); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingBox::IntersectsPlane", true, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.v(); let r = p0.IntersectsPlane(a1); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingBox::IntersectsRay", true, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.of(); let p3 = g.place(a3); let r = p0.IntersectsRay(a1, a2, &mut *p3); o.put(r); o.same(*p0, a0); o.put(*p3); o.0 }),
    ("BoundingBox::ContainedBy", false, |g| { let mut o = O::new(); let a0 = g.BoundingBox(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.v(); let a5 = g.v(); let a6 = g.v(); let r = p0.ContainedBy(a1, a2, a3, a4, a5, a6); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingBox::CreateMerged", true, |g| { let mut o = O::new(); let a0 = g.oBoundingBox(); let p0 = g.place(a0); let a1 = g.BoundingBox(); let p1 = g.place(a1); let a2 = g.BoundingBox(); let p2 = g.place(a2); BoundingBox::CreateMerged(&mut *p0, &*p1, &*p2); o.put(*p0); o.same(*p1, a1); o.same(*p2, a2); o.0 }),
    ("BoundingBox::CreateFromSphere", true, |g| { let mut o = O::new(); let a0 = g.oBoundingBox(); let p0 = g.place(a0); let a1 = g.BoundingSphere(); let p1 = g.place(a1); BoundingBox::CreateFromSphere(&mut *p0, &*p1); o.put(*p0); o.same(*p1, a1); o.0 }),
    ("BoundingBox::CreateFromPoints", false, |g| { let mut o = O::new(); let a0 = g.oBoundingBox(); let p0 = g.place(a0); let k1 = g.pts(); let a1 = g.place_slice(&k1); BoundingBox::CreateFromPoints(&mut *p0, a1.iter()); o.put(*p0); for (x, y) in k1.iter().zip(a1.iter()) { o.same(*x, *y); } o.0 }),
    ("BoundingOrientedBox::TransformMatrix", true, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.oBoundingOrientedBox(); let p1 = g.place(a1); let a2 = g.m(); p0.TransformMatrix(&mut *p1, a2); o.same(*p0, a0); o.put(*p1); o.0 }),
    ("BoundingOrientedBox::TransformDecomposed", true, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.oBoundingOrientedBox(); let p1 = g.place(a1); let a2 = g.f(); let a3 = g.v(); let a4 = g.v(); p0.TransformDecomposed(&mut *p1, a2, a3, a4); o.same(*p0, a0); o.put(*p1); o.0 }),
    ("BoundingOrientedBox::ContainsPoint", false, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.v(); let r = p0.ContainsPoint(a1); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingOrientedBox::ContainsTriangle", false, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let r = p0.ContainsTriangle(a1, a2, a3); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingOrientedBox::ContainsSphere", true, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.BoundingSphere(); let p1 = g.place(a1); let r = p0.ContainsSphere(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingOrientedBox::ContainsBox", false, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.BoundingBox(); let p1 = g.place(a1); let r = p0.ContainsBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingOrientedBox::ContainsOrientedBox", true, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.BoundingOrientedBox(); let p1 = g.place(a1); let r = p0.ContainsOrientedBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingOrientedBox::ContainsFrustum", true, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.BoundingFrustum(); let p1 = g.place(a1); let r = p0.ContainsFrustum(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingOrientedBox::IntersectsSphere", true, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.BoundingSphere(); let p1 = g.place(a1); let r = p0.IntersectsSphere(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingOrientedBox::IntersectsBox", false, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.BoundingBox(); let p1 = g.place(a1); let r = p0.IntersectsBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingOrientedBox::IntersectsOrientedBox", true, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.BoundingOrientedBox(); let p1 = g.place(a1); let r = p0.IntersectsOrientedBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingOrientedBox::IntersectsFrustum", false, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.BoundingFrustum(); let p1 = g.place(a1); let r = p0.IntersectsFrustum(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingOrientedBox::IntersectsTriangle", false, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let r = p0.IntersectsTriangle(a1, a2, a3); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingOrientedBox::IntersectsPlane", true, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.v(); let r = p0.IntersectsPlane(a1); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingOrientedBox::IntersectsRay", true, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.of(); let p3 = g.place(a3); let r = p0.IntersectsRay(a1, a2, &mut *p3); o.put(r); o.same(*p0, a0); o.put(*p3); o.0 }),
    ("BoundingOrientedBox::ContainedBy", true, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.v(); let a5 = g.v(); let a6 = g.v(); let r = p0.ContainedBy(a1, a2, a3, a4, a5, a6); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingOrientedBox::CreateFromBoundingBox", false, |g| { let mut o = O::new(); let a0 = g.oBoundingOrientedBox(); let p0 = g.place(a0); let a1 = g.BoundingBox(); let p1 = g.place(a1); BoundingOrientedBox::CreateFromBoundingBox(&mut *p0, &*p1); o.put(*p0); o.same(*p1, a1); o.0 }),
    ("BoundingOrientedBox::CreateFromPoints", false, |g| { let mut o = O::new(); let a0 = g.oBoundingOrientedBox(); let p0 = g.place(a0); let k1 = g.pts(); let a1 = g.place_slice(&k1); BoundingOrientedBox::CreateFromPoints(&mut *p0, a1.iter()); o.put(*p0); for (x, y) in k1.iter().zip(a1.iter()) { o.same(*x, *y); } o.0 }),
    ("BoundingOrientedBox::GetCorners", true, |g| { let mut o = O::new(); let a0 = g.BoundingOrientedBox(); let p0 = g.place(a0); let a1 = [XMFLOAT3::from(g.ofs::<3>()); 8]; let p1 = g.place(a1); p0.GetCorners(&mut *p1); o.same(*p0, a0); o.put(*p1); o.0 }),
    ("BoundingFrustum::TransformMatrix", true, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.oBoundingFrustum(); let p1 = g.place(a1); let a2 = g.m(); p0.TransformMatrix(&mut *p1, a2); o.same(*p0, a0); o.put(*p1); o.0 }),
    ("BoundingFrustum::TransformDecomposed", true, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.oBoundingFrustum(); let p1 = g.place(a1); let a2 = g.f(); let a3 = g.v(); let a4 = g.v(); p0.TransformDecomposed(&mut *p1, a2, a3, a4); o.same(*p0, a0); o.put(*p1); o.0 }),
    ("BoundingFrustum::ContainsPoint", true, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.v(); let r = p0.ContainsPoint(a1); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingFrustum::ContainsTriangle", false, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let r = p0.ContainsTriangle(a1, a2, a3); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingFrustum::ContainsSphere", false, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.BoundingSphere(); let p1 = g.place(a1); let r = p0.ContainsSphere(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingFrustum::ContainsBox", false, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.BoundingBox(); let p1 = g.place(a1); let r = p0.ContainsBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingFrustum::ContainsOrientedBox", false, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.BoundingOrientedBox(); let p1 = g.place(a1); let r = p0.ContainsOrientedBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingFrustum::ContainsFrustum", false, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.BoundingFrustum(); let p1 = g.place(a1); let r = p0.ContainsFrustum(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingFrustum::IntersectsSphere", true, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.BoundingSphere(); let p1 = g.place(a1); let r = p0.IntersectsSphere(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingFrustum::IntersectsBox", false, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.BoundingBox(); let p1 = g.place(a1); let r = p0.IntersectsBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingFrustum::IntersectsOrientedBox", true, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.BoundingOrientedBox(); let p1 = g.place(a1); let r = p0.IntersectsOrientedBox(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingFrustum::IntersectsFrustum", true, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.BoundingFrustum(); let p1 = g.place(a1); let r = p0.IntersectsFrustum(&*p1); o.put(r); o.same(*p0, a0); o.same(*p1, a1); o.0 }),
    ("BoundingFrustum::IntersectsTriangle", true, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let r = p0.IntersectsTriangle(a1, a2, a3); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingFrustum::IntersectsPlane", true, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.v(); let r = p0.IntersectsPlane(a1); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingFrustum::IntersectsRay", false, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.of(); let p3 = g.place(a3); let r = p0.IntersectsRay(a1, a2, &mut *p3); o.put(r); o.same(*p0, a0); o.put(*p3); o.0 }),
    ("BoundingFrustum::ContainedBy", true, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.v(); let a5 = g.v(); let a6 = g.v(); let r = p0.ContainedBy(a1, a2, a3, a4, a5, a6); o.put(r); o.same(*p0, a0); o.0 }),
    ("BoundingFrustum::CreateFromMatrix", false, |g| { let mut o = O::new(); let a0 = g.oBoundingFrustum(); let p0 = g.place(a0); let a1 = g.m(); let a2 = g.idx(2) == 1; BoundingFrustum::CreateFromMatrix(&mut *p0, a1, a2); o.put(*p0); o.0 }),
    ("BoundingFrustum::GetPlanes", false, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = g.ov(); let p1 = g.place(a1); let a2 = g.ov(); let p2 = g.place(a2); let a3 = g.ov(); let p3 = g.place(a3); let a4 = g.ov(); let p4 = g.place(a4); let a5 = g.ov(); let p5 = g.place(a5); let a6 = g.ov(); let p6 = g.place(a6); p0.GetPlanes(Some(&mut *p1), Some(&mut *p2), Some(&mut *p3), Some(&mut *p4), Some(&mut *p5), Some(&mut *p6)); o.same(*p0, a0); o.put(*p1); o.put(*p2); o.put(*p3); o.put(*p4); o.put(*p5); o.put(*p6); o.0 }),
    ("BoundingFrustum::GetCorners", true, |g| { let mut o = O::new(); let a0 = g.BoundingFrustum(); let p0 = g.place(a0); let a1 = [XMFLOAT3::from(g.ofs::<3>()); 8]; let p1 = g.place(a1); p0.GetCorners(&mut *p1); o.same(*p0, a0); o.put(*p1); o.0 }),
    ("triangle_tests::IntersectsRay", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.v(); let a5 = g.of(); let p5 = g.place(a5); let r = triangle_tests::IntersectsRay(a0, a1, a2, a3, a4, &mut *p5); o.put(r); o.put(*p5); o.0 }),
    ("triangle_tests::IntersectsTriangle", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.v(); let a5 = g.v(); let r = triangle_tests::IntersectsTriangle(a0, a1, a2, a3, a4, a5); o.put(r);  o.0 }),
    ("triangle_tests::IntersectsPlane", true, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let r = triangle_tests::IntersectsPlane(a0, a1, a2, a3); o.put(r);  o.0 }),
    ("triangle_tests::ContainedBy", false, |g| { let mut o = O::new(); let a0 = g.v(); let a1 = g.v(); let a2 = g.v(); let a3 = g.v(); let a4 = g.v(); let a5 = g.v(); let a6 = g.v(); let p6 = g.place(a6); let a7 = g.v(); let p7 = g.place(a7); let a8 = g.v(); let p8 = g.place(a8); let r = triangle_tests::ContainedBy(a0, a1, a2, a3, a4, a5, &*p6, &*p7, &*p8); o.put(r); o.same(*p6, a6); o.same(*p7, a7); o.same(*p8, a8); o.0 }),
    ("XMConvertToRadians", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMConvertToRadians(a0); o.put(r);  o.0 }),
    ("XMConvertToDegrees", false, |g| { let mut o = O::new(); let a0 = g.f(); let r = XMConvertToDegrees(a0); o.put(r);  o.0 }),
    ("XMComparisonAllTrue", false, |g| { let mut o = O::new(); let a0 = g.u(); let r = XMComparisonAllTrue(a0); o.put(r);  o.0 }),
    ("XMComparisonAnyTrue", false, |g| { let mut o = O::new(); let a0 = g.u(); let r = XMComparisonAnyTrue(a0); o.put(r);  o.0 }),
    ("XMComparisonAllFalse", false, |g| { let mut o = O::new(); let a0 = g.u(); let r = XMComparisonAllFalse(a0); o.put(r);  o.0 }),
    ("XMComparisonAnyFalse", false, |g| { let mut o = O::new(); let a0 = g.u(); let r = XMComparisonAnyFalse(a0); o.put(r);  o.0 }),
    ("XMComparisonMixed", false, |g| { let mut o = O::new(); let a0 = g.u(); let r = XMComparisonMixed(a0); o.put(r);  o.0 }),
    ("XMComparisonAllInBounds", false, |g| { let mut o = O::new(); let a0 = g.u(); let r = XMComparisonAllInBounds(a0); o.put(r);  o.0 }),
    ("XMComparisonAnyOutOfBounds", false, |g| { let mut o = O::new(); let a0 = g.u(); let r = XMComparisonAnyOutOfBounds(a0); o.put(r);  o.0 }),
    ("XMVectorSetBinaryConstant", false, |g| { let mut o = O::new(); let a0 = g.idx(2); let a1 = g.idx(2); let a2 = g.idx(2); let a3 = g.idx(2); let r = XMVectorSetBinaryConstant(a0, a1, a2, a3); o.put(r);  o.0 }),
    ("XMVectorSplatConstant", true, |g| { let mut o = O::new(); let a0 = g.idx(31) as i32 - 15; let a1 = g.idx(32); let r = XMVectorSplatConstant(a0, a1); o.put(r);  o.0 }),
    ("XMVectorSplatConstantInt", true, |g| { let mut o = O::new(); let a0 = g.idx(31) as i32 - 15; let r = XMVectorSplatConstantInt(a0); o.put(r);  o.0 }),
];
