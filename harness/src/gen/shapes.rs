// @generated by tools/gen_shapes.py
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1();
rtuple!(@refl S1 ());
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S2(pub(crate) u8);
rtuple!(@refl S2 (a0: u8));
rtuple!(S3 (a0: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S4(i32);
rtuple!(@refl S4 (a0: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S5(pub(crate) bool);
rtuple!(@refl S5 (a0: bool));
rtuple!(S6 (a0: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S7(pub FixedBytes<3>);
rtuple!(@refl S7 (a0: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S8(RangedInt<u8, 10, 20>);
rtuple!(@refl S8 (a0: RangedInt<u8, 10, 20>));
rtuple!(S9 (a0: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S10(pub Option<u16>);
rtuple!(@refl S10 (a0: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S11(N);
rtuple!(@refl S11 (a0: N));
rtuple!(S12 (a0: Z));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S13(pub Bytes);
rtuple!(@refl S13 (a0: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S14(pub Sequence<u16>);
rtuple!(@refl S14 (a0: Sequence<u16>));
rtuple!(S15 (a0: Nullable<u8>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S16(pub(crate) P2);
rtuple!(@refl S16 (a0: P2));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S17(pub U8);
rtuple!(@refl S17 (a0: U8));
rtuple!(S18 (a0: u8, a1: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S19(pub(crate) u8, pub(crate) u16);
rtuple!(@refl S19 (a0: u8, a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S20(pub u8, pub i32);
rtuple!(@refl S20 (a0: u8, a1: i32));
rtuple!(S21 (a0: u8, a1: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S22(u8, ());
rtuple!(@refl S22 (a0: u8, a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S23(pub(crate) u8, pub(crate) FixedBytes<3>);
rtuple!(@refl S23 (a0: u8, a1: FixedBytes<3>));
rtuple!(S24 (a0: u8, a1: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S25(u8, Dynamic<u8, Bytes>);
rtuple!(@refl S25 (a0: u8, a1: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S26(pub(crate) u8, pub(crate) Option<u16>);
rtuple!(@refl S26 (a0: u8, a1: Option<u16>));
rtuple!(S27 (a0: u8, a1: N));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S28(pub u8, pub Z);
rtuple!(@refl S28 (a0: u8, a1: Z));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S29(u8, Bytes);
rtuple!(@refl S29 (a0: u8, a1: Bytes));
rtuple!(S30 (a0: u8, a1: Sequence<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S31(pub u8, pub Nullable<u8>);
rtuple!(@refl S31 (a0: u8, a1: Nullable<u8>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S32(u8, P2);
rtuple!(@refl S32 (a0: u8, a1: P2));
rtuple!(S33 (a0: u8, a1: U8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S34(pub u16, pub u8);
rtuple!(@refl S34 (a0: u16, a1: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S35(pub u16, pub u16);
rtuple!(@refl S35 (a0: u16, a1: u16));
rtuple!(S36 (a0: u16, a1: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S37(pub(crate) u16, pub(crate) bool);
rtuple!(@refl S37 (a0: u16, a1: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S38(pub u16, pub ());
rtuple!(@refl S38 (a0: u16, a1: ()));
rtuple!(S39 (a0: u16, a1: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S40(pub(crate) u16, pub(crate) RangedInt<u8, 10, 20>);
rtuple!(@refl S40 (a0: u16, a1: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S41(pub u16, pub Dynamic<u8, Bytes>);
rtuple!(@refl S41 (a0: u16, a1: Dynamic<u8, Bytes>));
rtuple!(S42 (a0: u16, a1: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S43(u16, N);
rtuple!(@refl S43 (a0: u16, a1: N));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S44(pub(crate) u16, pub(crate) Z);
rtuple!(@refl S44 (a0: u16, a1: Z));
rtuple!(S45 (a0: u16, a1: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S46(u16, Sequence<u16>);
rtuple!(@refl S46 (a0: u16, a1: Sequence<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S47(pub(crate) u16, pub(crate) Nullable<u8>);
rtuple!(@refl S47 (a0: u16, a1: Nullable<u8>));
rtuple!(S48 (a0: u16, a1: P2));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S49(pub u16, pub U8);
rtuple!(@refl S49 (a0: u16, a1: U8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S50(i32, u8);
rtuple!(@refl S50 (a0: i32, a1: u8));
rtuple!(S51 (a0: i32, a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S52(pub i32, pub i32);
rtuple!(@refl S52 (a0: i32, a1: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S53(i32, bool);
rtuple!(@refl S53 (a0: i32, a1: bool));
rtuple!(S54 (a0: i32, a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S55(pub i32, pub FixedBytes<3>);
rtuple!(@refl S55 (a0: i32, a1: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S56(pub i32, pub RangedInt<u8, 10, 20>);
rtuple!(@refl S56 (a0: i32, a1: RangedInt<u8, 10, 20>));
rtuple!(S57 (a0: i32, a1: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S58(pub(crate) i32, pub(crate) Option<u16>);
rtuple!(@refl S58 (a0: i32, a1: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S59(pub i32, pub N);
rtuple!(@refl S59 (a0: i32, a1: N));
rtuple!(S60 (a0: i32, a1: Z));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S61(pub(crate) i32, pub(crate) Bytes);
rtuple!(@refl S61 (a0: i32, a1: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S62(pub i32, pub Sequence<u16>);
rtuple!(@refl S62 (a0: i32, a1: Sequence<u16>));
rtuple!(S63 (a0: i32, a1: Nullable<u8>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S64(i32, P2);
rtuple!(@refl S64 (a0: i32, a1: P2));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S65(pub(crate) i32, pub(crate) U8);
rtuple!(@refl S65 (a0: i32, a1: U8));
rtuple!(S66 (a0: bool, a1: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S67(bool, u16);
rtuple!(@refl S67 (a0: bool, a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S68(pub(crate) bool, pub(crate) i32);
rtuple!(@refl S68 (a0: bool, a1: i32));
rtuple!(S69 (a0: bool, a1: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S70(pub bool, pub ());
rtuple!(@refl S70 (a0: bool, a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S71(bool, FixedBytes<3>);
rtuple!(@refl S71 (a0: bool, a1: FixedBytes<3>));
rtuple!(S72 (a0: bool, a1: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S73(pub bool, pub Dynamic<u8, Bytes>);
rtuple!(@refl S73 (a0: bool, a1: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S74(bool, Option<u16>);
rtuple!(@refl S74 (a0: bool, a1: Option<u16>));
rtuple!(S75 (a0: bool, a1: N));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S76(pub bool, pub Z);
rtuple!(@refl S76 (a0: bool, a1: Z));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S77(pub bool, pub Bytes);
rtuple!(@refl S77 (a0: bool, a1: Bytes));
rtuple!(S78 (a0: bool, a1: Sequence<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S79(pub(crate) bool, pub(crate) Nullable<u8>);
rtuple!(@refl S79 (a0: bool, a1: Nullable<u8>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S80(pub bool, pub P2);
rtuple!(@refl S80 (a0: bool, a1: P2));
rtuple!(S81 (a0: bool, a1: U8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S82(pub(crate) (), pub(crate) u8);
rtuple!(@refl S82 (a0: (), a1: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S83(pub (), pub u16);
rtuple!(@refl S83 (a0: (), a1: u16));
rtuple!(S84 (a0: (), a1: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S85((), bool);
rtuple!(@refl S85 (a0: (), a1: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S86(pub(crate) (), pub(crate) ());
rtuple!(@refl S86 (a0: (), a1: ()));
rtuple!(S87 (a0: (), a1: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S88((), RangedInt<u8, 10, 20>);
rtuple!(@refl S88 (a0: (), a1: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S89(pub(crate) (), pub(crate) Dynamic<u8, Bytes>);
rtuple!(@refl S89 (a0: (), a1: Dynamic<u8, Bytes>));
rtuple!(S90 (a0: (), a1: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S91(pub (), pub N);
rtuple!(@refl S91 (a0: (), a1: N));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S92((), Z);
rtuple!(@refl S92 (a0: (), a1: Z));
rtuple!(S93 (a0: (), a1: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S94(pub (), pub Sequence<u16>);
rtuple!(@refl S94 (a0: (), a1: Sequence<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S95((), Nullable<u8>);
rtuple!(@refl S95 (a0: (), a1: Nullable<u8>));
rtuple!(S96 (a0: (), a1: P2));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S97(pub (), pub U8);
rtuple!(@refl S97 (a0: (), a1: U8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S98(pub FixedBytes<3>, pub u8);
rtuple!(@refl S98 (a0: FixedBytes<3>, a1: u8));
rtuple!(S99 (a0: FixedBytes<3>, a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S100(pub(crate) FixedBytes<3>, pub(crate) i32);
rtuple!(@refl S100 (a0: FixedBytes<3>, a1: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S101(pub FixedBytes<3>, pub bool);
rtuple!(@refl S101 (a0: FixedBytes<3>, a1: bool));
rtuple!(S102 (a0: FixedBytes<3>, a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S103(pub(crate) FixedBytes<3>, pub(crate) FixedBytes<3>);
rtuple!(@refl S103 (a0: FixedBytes<3>, a1: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S104(pub FixedBytes<3>, pub RangedInt<u8, 10, 20>);
rtuple!(@refl S104 (a0: FixedBytes<3>, a1: RangedInt<u8, 10, 20>));
rtuple!(S105 (a0: FixedBytes<3>, a1: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S106(FixedBytes<3>, Option<u16>);
rtuple!(@refl S106 (a0: FixedBytes<3>, a1: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S107(pub(crate) FixedBytes<3>, pub(crate) N);
rtuple!(@refl S107 (a0: FixedBytes<3>, a1: N));
rtuple!(S108 (a0: FixedBytes<3>, a1: Z));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S109(FixedBytes<3>, Bytes);
rtuple!(@refl S109 (a0: FixedBytes<3>, a1: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S110(pub(crate) FixedBytes<3>, pub(crate) Sequence<u16>);
rtuple!(@refl S110 (a0: FixedBytes<3>, a1: Sequence<u16>));
rtuple!(S111 (a0: FixedBytes<3>, a1: Nullable<u8>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S112(pub FixedBytes<3>, pub P2);
rtuple!(@refl S112 (a0: FixedBytes<3>, a1: P2));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S113(FixedBytes<3>, U8);
rtuple!(@refl S113 (a0: FixedBytes<3>, a1: U8));
rtuple!(S114 (a0: RangedInt<u8, 10, 20>, a1: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S115(pub RangedInt<u8, 10, 20>, pub u16);
rtuple!(@refl S115 (a0: RangedInt<u8, 10, 20>, a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S116(RangedInt<u8, 10, 20>, i32);
rtuple!(@refl S116 (a0: RangedInt<u8, 10, 20>, a1: i32));
rtuple!(S117 (a0: RangedInt<u8, 10, 20>, a1: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S118(pub RangedInt<u8, 10, 20>, pub ());
rtuple!(@refl S118 (a0: RangedInt<u8, 10, 20>, a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S119(pub RangedInt<u8, 10, 20>, pub FixedBytes<3>);
rtuple!(@refl S119 (a0: RangedInt<u8, 10, 20>, a1: FixedBytes<3>));
rtuple!(S120 (a0: RangedInt<u8, 10, 20>, a1: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S121(pub(crate) RangedInt<u8, 10, 20>, pub(crate) Dynamic<u8, Bytes>);
rtuple!(@refl S121 (a0: RangedInt<u8, 10, 20>, a1: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S122(pub RangedInt<u8, 10, 20>, pub Option<u16>);
rtuple!(@refl S122 (a0: RangedInt<u8, 10, 20>, a1: Option<u16>));
rtuple!(S123 (a0: RangedInt<u8, 10, 20>, a1: N));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S124(pub(crate) RangedInt<u8, 10, 20>, pub(crate) Z);
rtuple!(@refl S124 (a0: RangedInt<u8, 10, 20>, a1: Z));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S125(pub RangedInt<u8, 10, 20>, pub Bytes);
rtuple!(@refl S125 (a0: RangedInt<u8, 10, 20>, a1: Bytes));
rtuple!(S126 (a0: RangedInt<u8, 10, 20>, a1: Sequence<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S127(RangedInt<u8, 10, 20>, Nullable<u8>);
rtuple!(@refl S127 (a0: RangedInt<u8, 10, 20>, a1: Nullable<u8>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S128(pub(crate) RangedInt<u8, 10, 20>, pub(crate) P2);
rtuple!(@refl S128 (a0: RangedInt<u8, 10, 20>, a1: P2));
rtuple!(S129 (a0: RangedInt<u8, 10, 20>, a1: U8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S130(Dynamic<u8, Bytes>, u8);
rtuple!(@refl S130 (a0: Dynamic<u8, Bytes>, a1: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S131(pub(crate) Dynamic<u8, Bytes>, pub(crate) u16);
rtuple!(@refl S131 (a0: Dynamic<u8, Bytes>, a1: u16));
rtuple!(S132 (a0: Dynamic<u8, Bytes>, a1: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S133(pub Dynamic<u8, Bytes>, pub bool);
rtuple!(@refl S133 (a0: Dynamic<u8, Bytes>, a1: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S134(Dynamic<u8, Bytes>, ());
rtuple!(@refl S134 (a0: Dynamic<u8, Bytes>, a1: ()));
rtuple!(S135 (a0: Dynamic<u8, Bytes>, a1: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S136(pub Dynamic<u8, Bytes>, pub RangedInt<u8, 10, 20>);
rtuple!(@refl S136 (a0: Dynamic<u8, Bytes>, a1: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S137(Dynamic<u8, Bytes>, Dynamic<u8, Bytes>);
rtuple!(@refl S137 (a0: Dynamic<u8, Bytes>, a1: Dynamic<u8, Bytes>));
rtuple!(S138 (a0: Dynamic<u8, Bytes>, a1: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S139(pub Dynamic<u8, Bytes>, pub N);
rtuple!(@refl S139 (a0: Dynamic<u8, Bytes>, a1: N));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S140(pub Dynamic<u8, Bytes>, pub Z);
rtuple!(@refl S140 (a0: Dynamic<u8, Bytes>, a1: Z));
rtuple!(S141 (a0: Dynamic<u8, Bytes>, a1: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S142(pub(crate) Dynamic<u8, Bytes>, pub(crate) Sequence<u16>);
rtuple!(@refl S142 (a0: Dynamic<u8, Bytes>, a1: Sequence<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S143(pub Dynamic<u8, Bytes>, pub Nullable<u8>);
rtuple!(@refl S143 (a0: Dynamic<u8, Bytes>, a1: Nullable<u8>));
rtuple!(S144 (a0: Dynamic<u8, Bytes>, a1: P2));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S145(pub(crate) Dynamic<u8, Bytes>, pub(crate) U8);
rtuple!(@refl S145 (a0: Dynamic<u8, Bytes>, a1: U8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S146(pub Option<u16>, pub u8);
rtuple!(@refl S146 (a0: Option<u16>, a1: u8));
rtuple!(S147 (a0: Option<u16>, a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S148(Option<u16>, i32);
rtuple!(@refl S148 (a0: Option<u16>, a1: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S149(pub(crate) Option<u16>, pub(crate) bool);
rtuple!(@refl S149 (a0: Option<u16>, a1: bool));
rtuple!(S150 (a0: Option<u16>, a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S151(Option<u16>, FixedBytes<3>);
rtuple!(@refl S151 (a0: Option<u16>, a1: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S152(pub(crate) Option<u16>, pub(crate) RangedInt<u8, 10, 20>);
rtuple!(@refl S152 (a0: Option<u16>, a1: RangedInt<u8, 10, 20>));
rtuple!(S153 (a0: Option<u16>, a1: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S154(pub Option<u16>, pub Option<u16>);
rtuple!(@refl S154 (a0: Option<u16>, a1: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S155(Option<u16>, N);
rtuple!(@refl S155 (a0: Option<u16>, a1: N));
rtuple!(S156 (a0: Option<u16>, a1: Z));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S157(pub Option<u16>, pub Bytes);
rtuple!(@refl S157 (a0: Option<u16>, a1: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S158(Option<u16>, Sequence<u16>);
rtuple!(@refl S158 (a0: Option<u16>, a1: Sequence<u16>));
rtuple!(S159 (a0: Option<u16>, a1: Nullable<u8>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S160(pub Option<u16>, pub P2);
rtuple!(@refl S160 (a0: Option<u16>, a1: P2));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S161(pub Option<u16>, pub U8);
rtuple!(@refl S161 (a0: Option<u16>, a1: U8));
rtuple!(S162 (a0: N, a1: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S163(pub(crate) N, pub(crate) u16);
rtuple!(@refl S163 (a0: N, a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S164(pub N, pub i32);
rtuple!(@refl S164 (a0: N, a1: i32));
rtuple!(S165 (a0: N, a1: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S166(pub(crate) N, pub(crate) ());
rtuple!(@refl S166 (a0: N, a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S167(pub N, pub FixedBytes<3>);
rtuple!(@refl S167 (a0: N, a1: FixedBytes<3>));
rtuple!(S168 (a0: N, a1: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S169(N, Dynamic<u8, Bytes>);
rtuple!(@refl S169 (a0: N, a1: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S170(pub(crate) N, pub(crate) Option<u16>);
rtuple!(@refl S170 (a0: N, a1: Option<u16>));
rtuple!(S171 (a0: N, a1: N));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S172(N, Z);
rtuple!(@refl S172 (a0: N, a1: Z));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S173(pub(crate) N, pub(crate) Bytes);
rtuple!(@refl S173 (a0: N, a1: Bytes));
rtuple!(S174 (a0: N, a1: Sequence<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S175(pub N, pub Nullable<u8>);
rtuple!(@refl S175 (a0: N, a1: Nullable<u8>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S176(N, P2);
rtuple!(@refl S176 (a0: N, a1: P2));
rtuple!(S177 (a0: N, a1: U8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S178(pub Z, pub u8);
rtuple!(@refl S178 (a0: Z, a1: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S179(Z, u16);
rtuple!(@refl S179 (a0: Z, a1: u16));
rtuple!(S180 (a0: Z, a1: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S181(pub Z, pub bool);
rtuple!(@refl S181 (a0: Z, a1: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S182(pub Z, pub ());
rtuple!(@refl S182 (a0: Z, a1: ()));
rtuple!(S183 (a0: Z, a1: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S184(pub(crate) Z, pub(crate) RangedInt<u8, 10, 20>);
rtuple!(@refl S184 (a0: Z, a1: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S185(pub Z, pub Dynamic<u8, Bytes>);
rtuple!(@refl S185 (a0: Z, a1: Dynamic<u8, Bytes>));
rtuple!(S186 (a0: Z, a1: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S187(pub(crate) Z, pub(crate) N);
rtuple!(@refl S187 (a0: Z, a1: N));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S188(pub Z, pub Z);
rtuple!(@refl S188 (a0: Z, a1: Z));
rtuple!(S189 (a0: Z, a1: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S190(Z, Sequence<u16>);
rtuple!(@refl S190 (a0: Z, a1: Sequence<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S191(pub(crate) Z, pub(crate) Nullable<u8>);
rtuple!(@refl S191 (a0: Z, a1: Nullable<u8>));
rtuple!(S192 (a0: Z, a1: P2));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S193(Z, U8);
rtuple!(@refl S193 (a0: Z, a1: U8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S194(pub(crate) Bytes, pub(crate) u8);
rtuple!(@refl S194 (a0: Bytes, a1: u8));
rtuple!(S195 (a0: Bytes, a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S196(pub Bytes, pub i32);
rtuple!(@refl S196 (a0: Bytes, a1: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S197(Bytes, bool);
rtuple!(@refl S197 (a0: Bytes, a1: bool));
rtuple!(S198 (a0: Bytes, a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S199(pub Bytes, pub FixedBytes<3>);
rtuple!(@refl S199 (a0: Bytes, a1: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S200(Bytes, RangedInt<u8, 10, 20>);
rtuple!(@refl S200 (a0: Bytes, a1: RangedInt<u8, 10, 20>));
rtuple!(S201 (a0: Bytes, a1: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S202(pub Bytes, pub Option<u16>);
rtuple!(@refl S202 (a0: Bytes, a1: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S203(pub Bytes, pub N);
rtuple!(@refl S203 (a0: Bytes, a1: N));
rtuple!(S204 (a0: Bytes, a1: Z));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S205(pub(crate) Bytes, pub(crate) Bytes);
rtuple!(@refl S205 (a0: Bytes, a1: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S206(pub Bytes, pub Sequence<u16>);
rtuple!(@refl S206 (a0: Bytes, a1: Sequence<u16>));
rtuple!(S207 (a0: Bytes, a1: Nullable<u8>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S208(pub(crate) Bytes, pub(crate) P2);
rtuple!(@refl S208 (a0: Bytes, a1: P2));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S209(pub Bytes, pub U8);
rtuple!(@refl S209 (a0: Bytes, a1: U8));
rtuple!(S210 (a0: Sequence<u16>, a1: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S211(Sequence<u16>, u16);
rtuple!(@refl S211 (a0: Sequence<u16>, a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S212(pub(crate) Sequence<u16>, pub(crate) i32);
rtuple!(@refl S212 (a0: Sequence<u16>, a1: i32));
rtuple!(S213 (a0: Sequence<u16>, a1: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S214(Sequence<u16>, ());
rtuple!(@refl S214 (a0: Sequence<u16>, a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S215(pub(crate) Sequence<u16>, pub(crate) FixedBytes<3>);
rtuple!(@refl S215 (a0: Sequence<u16>, a1: FixedBytes<3>));
rtuple!(S216 (a0: Sequence<u16>, a1: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S217(pub Sequence<u16>, pub Dynamic<u8, Bytes>);
rtuple!(@refl S217 (a0: Sequence<u16>, a1: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S218(Sequence<u16>, Option<u16>);
rtuple!(@refl S218 (a0: Sequence<u16>, a1: Option<u16>));
rtuple!(S219 (a0: Sequence<u16>, a1: N));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S220(pub Sequence<u16>, pub Z);
rtuple!(@refl S220 (a0: Sequence<u16>, a1: Z));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S221(Sequence<u16>, Bytes);
rtuple!(@refl S221 (a0: Sequence<u16>, a1: Bytes));
rtuple!(S222 (a0: Sequence<u16>, a1: Sequence<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S223(pub Sequence<u16>, pub Nullable<u8>);
rtuple!(@refl S223 (a0: Sequence<u16>, a1: Nullable<u8>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S224(pub Sequence<u16>, pub P2);
rtuple!(@refl S224 (a0: Sequence<u16>, a1: P2));
rtuple!(S225 (a0: Sequence<u16>, a1: U8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S226(pub(crate) Nullable<u8>, pub(crate) u8);
rtuple!(@refl S226 (a0: Nullable<u8>, a1: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S227(pub Nullable<u8>, pub u16);
rtuple!(@refl S227 (a0: Nullable<u8>, a1: u16));
rtuple!(S228 (a0: Nullable<u8>, a1: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S229(pub(crate) Nullable<u8>, pub(crate) bool);
rtuple!(@refl S229 (a0: Nullable<u8>, a1: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S230(pub Nullable<u8>, pub ());
rtuple!(@refl S230 (a0: Nullable<u8>, a1: ()));
rtuple!(S231 (a0: Nullable<u8>, a1: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S232(Nullable<u8>, RangedInt<u8, 10, 20>);
rtuple!(@refl S232 (a0: Nullable<u8>, a1: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S233(pub(crate) Nullable<u8>, pub(crate) Dynamic<u8, Bytes>);
rtuple!(@refl S233 (a0: Nullable<u8>, a1: Dynamic<u8, Bytes>));
rtuple!(S234 (a0: Nullable<u8>, a1: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S235(Nullable<u8>, N);
rtuple!(@refl S235 (a0: Nullable<u8>, a1: N));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S236(pub(crate) Nullable<u8>, pub(crate) Z);
rtuple!(@refl S236 (a0: Nullable<u8>, a1: Z));
rtuple!(S237 (a0: Nullable<u8>, a1: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S238(pub Nullable<u8>, pub Sequence<u16>);
rtuple!(@refl S238 (a0: Nullable<u8>, a1: Sequence<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S239(Nullable<u8>, Nullable<u8>);
rtuple!(@refl S239 (a0: Nullable<u8>, a1: Nullable<u8>));
rtuple!(S240 (a0: Nullable<u8>, a1: P2));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S241(pub Nullable<u8>, pub U8);
rtuple!(@refl S241 (a0: Nullable<u8>, a1: U8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S242(P2, u8);
rtuple!(@refl S242 (a0: P2, a1: u8));
rtuple!(S243 (a0: P2, a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S244(pub P2, pub i32);
rtuple!(@refl S244 (a0: P2, a1: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S245(pub P2, pub bool);
rtuple!(@refl S245 (a0: P2, a1: bool));
rtuple!(S246 (a0: P2, a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S247(pub(crate) P2, pub(crate) FixedBytes<3>);
rtuple!(@refl S247 (a0: P2, a1: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S248(pub P2, pub RangedInt<u8, 10, 20>);
rtuple!(@refl S248 (a0: P2, a1: RangedInt<u8, 10, 20>));
rtuple!(S249 (a0: P2, a1: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S250(pub(crate) P2, pub(crate) Option<u16>);
rtuple!(@refl S250 (a0: P2, a1: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S251(pub P2, pub N);
rtuple!(@refl S251 (a0: P2, a1: N));
rtuple!(S252 (a0: P2, a1: Z));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S253(P2, Bytes);
rtuple!(@refl S253 (a0: P2, a1: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S254(pub(crate) P2, pub(crate) Sequence<u16>);
rtuple!(@refl S254 (a0: P2, a1: Sequence<u16>));
rtuple!(S255 (a0: P2, a1: Nullable<u8>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S256(P2, P2);
rtuple!(@refl S256 (a0: P2, a1: P2));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S257(pub(crate) P2, pub(crate) U8);
rtuple!(@refl S257 (a0: P2, a1: U8));
rtuple!(S258 (a0: U8, a1: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S259(pub U8, pub u16);
rtuple!(@refl S259 (a0: U8, a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S260(U8, i32);
rtuple!(@refl S260 (a0: U8, a1: i32));
rtuple!(S261 (a0: U8, a1: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S262(pub U8, pub ());
rtuple!(@refl S262 (a0: U8, a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S263(U8, FixedBytes<3>);
rtuple!(@refl S263 (a0: U8, a1: FixedBytes<3>));
rtuple!(S264 (a0: U8, a1: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S265(pub U8, pub Dynamic<u8, Bytes>);
rtuple!(@refl S265 (a0: U8, a1: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S266(pub U8, pub Option<u16>);
rtuple!(@refl S266 (a0: U8, a1: Option<u16>));
rtuple!(S267 (a0: U8, a1: N));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S268(pub(crate) U8, pub(crate) Z);
rtuple!(@refl S268 (a0: U8, a1: Z));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S269(pub U8, pub Bytes);
rtuple!(@refl S269 (a0: U8, a1: Bytes));
rtuple!(S270 (a0: U8, a1: Sequence<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S271(pub(crate) U8, pub(crate) Nullable<u8>);
rtuple!(@refl S271 (a0: U8, a1: Nullable<u8>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S272(pub U8, pub P2);
rtuple!(@refl S272 (a0: U8, a1: P2));
rtuple!(S273 (a0: U8, a1: U8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S274(u8, u8, u8);
rtuple!(@refl S274 (a0: u8, a1: u8, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S275(pub(crate) u8, pub(crate) u8, pub(crate) u16);
rtuple!(@refl S275 (a0: u8, a1: u8, a2: u16));
rtuple!(S276 (a0: u8, a1: u8, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S277(u8, u8, Option<u16>);
rtuple!(@refl S277 (a0: u8, a1: u8, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S278(pub(crate) u8, pub(crate) u8, pub(crate) Bytes);
rtuple!(@refl S278 (a0: u8, a1: u8, a2: Bytes));
rtuple!(S279 (a0: u8, a1: u16, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S280(pub u8, pub u16, pub u16);
rtuple!(@refl S280 (a0: u8, a1: u16, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S281(u8, u16, Dynamic<u8, Bytes>);
rtuple!(@refl S281 (a0: u8, a1: u16, a2: Dynamic<u8, Bytes>));
rtuple!(S282 (a0: u8, a1: u16, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S283(pub u8, pub u16, pub Bytes);
rtuple!(@refl S283 (a0: u8, a1: u16, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S284(u8, Dynamic<u8, Bytes>, u8);
rtuple!(@refl S284 (a0: u8, a1: Dynamic<u8, Bytes>, a2: u8));
rtuple!(S285 (a0: u8, a1: Dynamic<u8, Bytes>, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S286(pub u8, pub Dynamic<u8, Bytes>, pub Dynamic<u8, Bytes>);
rtuple!(@refl S286 (a0: u8, a1: Dynamic<u8, Bytes>, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S287(pub u8, pub Dynamic<u8, Bytes>, pub Option<u16>);
rtuple!(@refl S287 (a0: u8, a1: Dynamic<u8, Bytes>, a2: Option<u16>));
rtuple!(S288 (a0: u8, a1: Dynamic<u8, Bytes>, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S289(pub(crate) u8, pub(crate) Option<u16>, pub(crate) u8);
rtuple!(@refl S289 (a0: u8, a1: Option<u16>, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S290(pub u8, pub Option<u16>, pub u16);
rtuple!(@refl S290 (a0: u8, a1: Option<u16>, a2: u16));
rtuple!(S291 (a0: u8, a1: Option<u16>, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S292(pub(crate) u8, pub(crate) Option<u16>, pub(crate) Option<u16>);
rtuple!(@refl S292 (a0: u8, a1: Option<u16>, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S293(pub u8, pub Option<u16>, pub Bytes);
rtuple!(@refl S293 (a0: u8, a1: Option<u16>, a2: Bytes));
rtuple!(S294 (a0: u8, a1: Bytes, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S295(u8, Bytes, u16);
rtuple!(@refl S295 (a0: u8, a1: Bytes, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S296(pub(crate) u8, pub(crate) Bytes, pub(crate) Dynamic<u8, Bytes>);
rtuple!(@refl S296 (a0: u8, a1: Bytes, a2: Dynamic<u8, Bytes>));
rtuple!(S297 (a0: u8, a1: Bytes, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S298(u8, Bytes, Bytes);
rtuple!(@refl S298 (a0: u8, a1: Bytes, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S299(pub(crate) u16, pub(crate) u8, pub(crate) u8);
rtuple!(@refl S299 (a0: u16, a1: u8, a2: u8));
rtuple!(S300 (a0: u16, a1: u8, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S301(pub u16, pub u8, pub Dynamic<u8, Bytes>);
rtuple!(@refl S301 (a0: u16, a1: u8, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S302(u16, u8, Option<u16>);
rtuple!(@refl S302 (a0: u16, a1: u8, a2: Option<u16>));
rtuple!(S303 (a0: u16, a1: u8, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S304(pub u16, pub u16, pub u8);
rtuple!(@refl S304 (a0: u16, a1: u16, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S305(u16, u16, u16);
rtuple!(@refl S305 (a0: u16, a1: u16, a2: u16));
rtuple!(S306 (a0: u16, a1: u16, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S307(pub u16, pub u16, pub Option<u16>);
rtuple!(@refl S307 (a0: u16, a1: u16, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S308(pub u16, pub u16, pub Bytes);
rtuple!(@refl S308 (a0: u16, a1: u16, a2: Bytes));
rtuple!(S309 (a0: u16, a1: Dynamic<u8, Bytes>, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S310(pub(crate) u16, pub(crate) Dynamic<u8, Bytes>, pub(crate) u16);
rtuple!(@refl S310 (a0: u16, a1: Dynamic<u8, Bytes>, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S311(pub u16, pub Dynamic<u8, Bytes>, pub Dynamic<u8, Bytes>);
rtuple!(@refl S311 (a0: u16, a1: Dynamic<u8, Bytes>, a2: Dynamic<u8, Bytes>));
rtuple!(S312 (a0: u16, a1: Dynamic<u8, Bytes>, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S313(pub(crate) u16, pub(crate) Dynamic<u8, Bytes>, pub(crate) Bytes);
rtuple!(@refl S313 (a0: u16, a1: Dynamic<u8, Bytes>, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S314(pub u16, pub Option<u16>, pub u8);
rtuple!(@refl S314 (a0: u16, a1: Option<u16>, a2: u8));
rtuple!(S315 (a0: u16, a1: Option<u16>, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S316(u16, Option<u16>, Dynamic<u8, Bytes>);
rtuple!(@refl S316 (a0: u16, a1: Option<u16>, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S317(pub(crate) u16, pub(crate) Option<u16>, pub(crate) Option<u16>);
rtuple!(@refl S317 (a0: u16, a1: Option<u16>, a2: Option<u16>));
rtuple!(S318 (a0: u16, a1: Option<u16>, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S319(u16, Bytes, u8);
rtuple!(@refl S319 (a0: u16, a1: Bytes, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S320(pub(crate) u16, pub(crate) Bytes, pub(crate) u16);
rtuple!(@refl S320 (a0: u16, a1: Bytes, a2: u16));
rtuple!(S321 (a0: u16, a1: Bytes, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S322(pub u16, pub Bytes, pub Option<u16>);
rtuple!(@refl S322 (a0: u16, a1: Bytes, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S323(u16, Bytes, Bytes);
rtuple!(@refl S323 (a0: u16, a1: Bytes, a2: Bytes));
rtuple!(S324 (a0: Dynamic<u8, Bytes>, a1: u8, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S325(pub Dynamic<u8, Bytes>, pub u8, pub u16);
rtuple!(@refl S325 (a0: Dynamic<u8, Bytes>, a1: u8, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S326(Dynamic<u8, Bytes>, u8, Dynamic<u8, Bytes>);
rtuple!(@refl S326 (a0: Dynamic<u8, Bytes>, a1: u8, a2: Dynamic<u8, Bytes>));
rtuple!(S327 (a0: Dynamic<u8, Bytes>, a1: u8, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S328(pub Dynamic<u8, Bytes>, pub u8, pub Bytes);
rtuple!(@refl S328 (a0: Dynamic<u8, Bytes>, a1: u8, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S329(pub Dynamic<u8, Bytes>, pub u16, pub u8);
rtuple!(@refl S329 (a0: Dynamic<u8, Bytes>, a1: u16, a2: u8));
rtuple!(S330 (a0: Dynamic<u8, Bytes>, a1: u16, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S331(pub(crate) Dynamic<u8, Bytes>, pub(crate) u16, pub(crate) Dynamic<u8, Bytes>);
rtuple!(@refl S331 (a0: Dynamic<u8, Bytes>, a1: u16, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S332(pub Dynamic<u8, Bytes>, pub u16, pub Option<u16>);
rtuple!(@refl S332 (a0: Dynamic<u8, Bytes>, a1: u16, a2: Option<u16>));
rtuple!(S333 (a0: Dynamic<u8, Bytes>, a1: u16, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S334(pub(crate) Dynamic<u8, Bytes>, pub(crate) Dynamic<u8, Bytes>, pub(crate) u8);
rtuple!(@refl S334 (a0: Dynamic<u8, Bytes>, a1: Dynamic<u8, Bytes>, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S335(pub Dynamic<u8, Bytes>, pub Dynamic<u8, Bytes>, pub u16);
rtuple!(@refl S335 (a0: Dynamic<u8, Bytes>, a1: Dynamic<u8, Bytes>, a2: u16));
rtuple!(S336 (a0: Dynamic<u8, Bytes>, a1: Dynamic<u8, Bytes>, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S337(Dynamic<u8, Bytes>, Dynamic<u8, Bytes>, Option<u16>);
rtuple!(@refl S337 (a0: Dynamic<u8, Bytes>, a1: Dynamic<u8, Bytes>, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S338(pub(crate) Dynamic<u8, Bytes>, pub(crate) Dynamic<u8, Bytes>, pub(crate) Bytes);
rtuple!(@refl S338 (a0: Dynamic<u8, Bytes>, a1: Dynamic<u8, Bytes>, a2: Bytes));
rtuple!(S339 (a0: Dynamic<u8, Bytes>, a1: Option<u16>, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S340(Dynamic<u8, Bytes>, Option<u16>, u16);
rtuple!(@refl S340 (a0: Dynamic<u8, Bytes>, a1: Option<u16>, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S341(pub(crate) Dynamic<u8, Bytes>, pub(crate) Option<u16>, pub(crate) Dynamic<u8, Bytes>);
rtuple!(@refl S341 (a0: Dynamic<u8, Bytes>, a1: Option<u16>, a2: Dynamic<u8, Bytes>));
rtuple!(S342 (a0: Dynamic<u8, Bytes>, a1: Option<u16>, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S343(pub Dynamic<u8, Bytes>, pub Option<u16>, pub Bytes);
rtuple!(@refl S343 (a0: Dynamic<u8, Bytes>, a1: Option<u16>, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S344(Dynamic<u8, Bytes>, Bytes, u8);
rtuple!(@refl S344 (a0: Dynamic<u8, Bytes>, a1: Bytes, a2: u8));
rtuple!(S345 (a0: Dynamic<u8, Bytes>, a1: Bytes, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S346(pub Dynamic<u8, Bytes>, pub Bytes, pub Dynamic<u8, Bytes>);
rtuple!(@refl S346 (a0: Dynamic<u8, Bytes>, a1: Bytes, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S347(Dynamic<u8, Bytes>, Bytes, Option<u16>);
rtuple!(@refl S347 (a0: Dynamic<u8, Bytes>, a1: Bytes, a2: Option<u16>));
rtuple!(S348 (a0: Dynamic<u8, Bytes>, a1: Bytes, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S349(pub Option<u16>, pub u8, pub u8);
rtuple!(@refl S349 (a0: Option<u16>, a1: u8, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S350(pub Option<u16>, pub u8, pub u16);
rtuple!(@refl S350 (a0: Option<u16>, a1: u8, a2: u16));
rtuple!(S351 (a0: Option<u16>, a1: u8, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S352(pub(crate) Option<u16>, pub(crate) u8, pub(crate) Option<u16>);
rtuple!(@refl S352 (a0: Option<u16>, a1: u8, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S353(pub Option<u16>, pub u8, pub Bytes);
rtuple!(@refl S353 (a0: Option<u16>, a1: u8, a2: Bytes));
rtuple!(S354 (a0: Option<u16>, a1: u16, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S355(pub(crate) Option<u16>, pub(crate) u16, pub(crate) u16);
rtuple!(@refl S355 (a0: Option<u16>, a1: u16, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S356(pub Option<u16>, pub u16, pub Dynamic<u8, Bytes>);
rtuple!(@refl S356 (a0: Option<u16>, a1: u16, a2: Dynamic<u8, Bytes>));
rtuple!(S357 (a0: Option<u16>, a1: u16, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S358(Option<u16>, u16, Bytes);
rtuple!(@refl S358 (a0: Option<u16>, a1: u16, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S359(pub(crate) Option<u16>, pub(crate) Dynamic<u8, Bytes>, pub(crate) u8);
rtuple!(@refl S359 (a0: Option<u16>, a1: Dynamic<u8, Bytes>, a2: u8));
rtuple!(S360 (a0: Option<u16>, a1: Dynamic<u8, Bytes>, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S361(Option<u16>, Dynamic<u8, Bytes>, Dynamic<u8, Bytes>);
rtuple!(@refl S361 (a0: Option<u16>, a1: Dynamic<u8, Bytes>, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S362(pub(crate) Option<u16>, pub(crate) Dynamic<u8, Bytes>, pub(crate) Option<u16>);
rtuple!(@refl S362 (a0: Option<u16>, a1: Dynamic<u8, Bytes>, a2: Option<u16>));
rtuple!(S363 (a0: Option<u16>, a1: Dynamic<u8, Bytes>, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S364(pub Option<u16>, pub Option<u16>, pub u8);
rtuple!(@refl S364 (a0: Option<u16>, a1: Option<u16>, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S365(Option<u16>, Option<u16>, u16);
rtuple!(@refl S365 (a0: Option<u16>, a1: Option<u16>, a2: u16));
rtuple!(S366 (a0: Option<u16>, a1: Option<u16>, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S367(pub Option<u16>, pub Option<u16>, pub Option<u16>);
rtuple!(@refl S367 (a0: Option<u16>, a1: Option<u16>, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S368(Option<u16>, Option<u16>, Bytes);
rtuple!(@refl S368 (a0: Option<u16>, a1: Option<u16>, a2: Bytes));
rtuple!(S369 (a0: Option<u16>, a1: Bytes, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S370(pub Option<u16>, pub Bytes, pub u16);
rtuple!(@refl S370 (a0: Option<u16>, a1: Bytes, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S371(pub Option<u16>, pub Bytes, pub Dynamic<u8, Bytes>);
rtuple!(@refl S371 (a0: Option<u16>, a1: Bytes, a2: Dynamic<u8, Bytes>));
rtuple!(S372 (a0: Option<u16>, a1: Bytes, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S373(pub(crate) Option<u16>, pub(crate) Bytes, pub(crate) Bytes);
rtuple!(@refl S373 (a0: Option<u16>, a1: Bytes, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S374(pub Bytes, pub u8, pub u8);
rtuple!(@refl S374 (a0: Bytes, a1: u8, a2: u8));
rtuple!(S375 (a0: Bytes, a1: u8, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S376(pub(crate) Bytes, pub(crate) u8, pub(crate) Dynamic<u8, Bytes>);
rtuple!(@refl S376 (a0: Bytes, a1: u8, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S377(pub Bytes, pub u8, pub Option<u16>);
rtuple!(@refl S377 (a0: Bytes, a1: u8, a2: Option<u16>));
rtuple!(S378 (a0: Bytes, a1: u8, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S379(Bytes, u16, u8);
rtuple!(@refl S379 (a0: Bytes, a1: u16, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S380(pub(crate) Bytes, pub(crate) u16, pub(crate) u16);
rtuple!(@refl S380 (a0: Bytes, a1: u16, a2: u16));
rtuple!(S381 (a0: Bytes, a1: u16, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S382(Bytes, u16, Option<u16>);
rtuple!(@refl S382 (a0: Bytes, a1: u16, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S383(pub(crate) Bytes, pub(crate) u16, pub(crate) Bytes);
rtuple!(@refl S383 (a0: Bytes, a1: u16, a2: Bytes));
rtuple!(S384 (a0: Bytes, a1: Dynamic<u8, Bytes>, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S385(pub Bytes, pub Dynamic<u8, Bytes>, pub u16);
rtuple!(@refl S385 (a0: Bytes, a1: Dynamic<u8, Bytes>, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S386(Bytes, Dynamic<u8, Bytes>, Dynamic<u8, Bytes>);
rtuple!(@refl S386 (a0: Bytes, a1: Dynamic<u8, Bytes>, a2: Dynamic<u8, Bytes>));
rtuple!(S387 (a0: Bytes, a1: Dynamic<u8, Bytes>, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S388(pub Bytes, pub Dynamic<u8, Bytes>, pub Bytes);
rtuple!(@refl S388 (a0: Bytes, a1: Dynamic<u8, Bytes>, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S389(Bytes, Option<u16>, u8);
rtuple!(@refl S389 (a0: Bytes, a1: Option<u16>, a2: u8));
rtuple!(S390 (a0: Bytes, a1: Option<u16>, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S391(pub Bytes, pub Option<u16>, pub Dynamic<u8, Bytes>);
rtuple!(@refl S391 (a0: Bytes, a1: Option<u16>, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S392(pub Bytes, pub Option<u16>, pub Option<u16>);
rtuple!(@refl S392 (a0: Bytes, a1: Option<u16>, a2: Option<u16>));
rtuple!(S393 (a0: Bytes, a1: Option<u16>, a2: Bytes));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S394(pub(crate) Bytes, pub(crate) Bytes, pub(crate) u8);
rtuple!(@refl S394 (a0: Bytes, a1: Bytes, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S395(pub Bytes, pub Bytes, pub u16);
rtuple!(@refl S395 (a0: Bytes, a1: Bytes, a2: u16));
rtuple!(S396 (a0: Bytes, a1: Bytes, a2: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S397(pub(crate) Bytes, pub(crate) Bytes, pub(crate) Option<u16>);
rtuple!(@refl S397 (a0: Bytes, a1: Bytes, a2: Option<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S398(pub Bytes, pub Bytes, pub Bytes);
rtuple!(@refl S398 (a0: Bytes, a1: Bytes, a2: Bytes));
rtuple!(S399 (a0: u8, a1: u8, a2: u8, a3: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S400(i32, Z, U8, RangedInt<u8, 10, 20>);
rtuple!(@refl S400 (a0: i32, a1: Z, a2: U8, a3: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S401(pub(crate) P2, pub(crate) Option<u16>, pub(crate) Z, pub(crate) Nullable<u8>);
rtuple!(@refl S401 (a0: P2, a1: Option<u16>, a2: Z, a3: Nullable<u8>));
rtuple!(S402 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S403(RangedInt<u8, 10, 20>, (), FixedBytes<3>, bool, i32);
rtuple!(@refl S403 (a0: RangedInt<u8, 10, 20>, a1: (), a2: FixedBytes<3>, a3: bool, a4: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S404(pub(crate) P2, pub(crate) Dynamic<u8, Bytes>, pub(crate) FixedBytes<3>, pub(crate) FixedBytes<3>, pub(crate) RangedInt<u8, 10, 20>);
rtuple!(@refl S404 (a0: P2, a1: Dynamic<u8, Bytes>, a2: FixedBytes<3>, a3: FixedBytes<3>, a4: RangedInt<u8, 10, 20>));
rtuple!(S405 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S406(pub N, pub Dynamic<u8, Bytes>, pub i32, pub u16, pub N, pub ());
rtuple!(@refl S406 (a0: N, a1: Dynamic<u8, Bytes>, a2: i32, a3: u16, a4: N, a5: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S407((), N, Dynamic<u8, Bytes>, FixedBytes<3>, P2, i32);
rtuple!(@refl S407 (a0: (), a1: N, a2: Dynamic<u8, Bytes>, a3: FixedBytes<3>, a4: P2, a5: i32));
rtuple!(S408 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S409(pub Dynamic<u8, Bytes>, pub RangedInt<u8, 10, 20>, pub Z, pub P2, pub u8, pub (), pub Dynamic<u8, Bytes>);
rtuple!(@refl S409 (a0: Dynamic<u8, Bytes>, a1: RangedInt<u8, 10, 20>, a2: Z, a3: P2, a4: u8, a5: (), a6: Dynamic<u8, Bytes>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S410((), Option<u16>, P2, (), (), u8, Option<u16>);
rtuple!(@refl S410 (a0: (), a1: Option<u16>, a2: P2, a3: (), a4: (), a5: u8, a6: Option<u16>));
rtuple!(S411 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S412(pub U8, pub Z, pub i32, pub RangedInt<u8, 10, 20>, pub u16, pub RangedInt<u8, 10, 20>, pub P2, pub Sequence<u16>);
rtuple!(@refl S412 (a0: U8, a1: Z, a2: i32, a3: RangedInt<u8, 10, 20>, a4: u16, a5: RangedInt<u8, 10, 20>, a6: P2, a7: Sequence<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S413(pub Z, pub FixedBytes<3>, pub u8, pub u16, pub FixedBytes<3>, pub bool, pub Option<u16>, pub P2);
rtuple!(@refl S413 (a0: Z, a1: FixedBytes<3>, a2: u8, a3: u16, a4: FixedBytes<3>, a5: bool, a6: Option<u16>, a7: P2));
rtuple!(S414 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S415(pub(crate) U8, pub(crate) Z, pub(crate) N, pub(crate) i32, pub(crate) Z, pub(crate) Dynamic<u8, Bytes>, pub(crate) u16, pub(crate) FixedBytes<3>, pub(crate) bool);
rtuple!(@refl S415 (a0: U8, a1: Z, a2: N, a3: i32, a4: Z, a5: Dynamic<u8, Bytes>, a6: u16, a7: FixedBytes<3>, a8: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S416(pub u8, pub Dynamic<u8, Bytes>, pub i32, pub RangedInt<u8, 10, 20>, pub Dynamic<u8, Bytes>, pub U8, pub Option<u16>, pub N, pub P2);
rtuple!(@refl S416 (a0: u8, a1: Dynamic<u8, Bytes>, a2: i32, a3: RangedInt<u8, 10, 20>, a4: Dynamic<u8, Bytes>, a5: U8, a6: Option<u16>, a7: N, a8: P2));
rtuple!(S417 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S418(pub(crate) bool, pub(crate) P2, pub(crate) FixedBytes<3>, pub(crate) (), pub(crate) u8, pub(crate) RangedInt<u8, 10, 20>, pub(crate) u16, pub(crate) Z, pub(crate) Z, pub(crate) Z);
rtuple!(@refl S418 (a0: bool, a1: P2, a2: FixedBytes<3>, a3: (), a4: u8, a5: RangedInt<u8, 10, 20>, a6: u16, a7: Z, a8: Z, a9: Z));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S419(pub bool, pub P2, pub N, pub RangedInt<u8, 10, 20>, pub P2, pub u16, pub N, pub Dynamic<u8, Bytes>, pub bool, pub FixedBytes<3>);
rtuple!(@refl S419 (a0: bool, a1: P2, a2: N, a3: RangedInt<u8, 10, 20>, a4: P2, a5: u16, a6: N, a7: Dynamic<u8, Bytes>, a8: bool, a9: FixedBytes<3>));
rtuple!(S420 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, a10: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S421(u16, i32, Z, i32, Z, RangedInt<u8, 10, 20>, Option<u16>, Z, N, bool, N);
rtuple!(@refl S421 (a0: u16, a1: i32, a2: Z, a3: i32, a4: Z, a5: RangedInt<u8, 10, 20>, a6: Option<u16>, a7: Z, a8: N, a9: bool, a10: N));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S422(pub(crate) (), pub(crate) i32, pub(crate) u8, pub(crate) Option<u16>, pub(crate) U8, pub(crate) Option<u16>, pub(crate) Z, pub(crate) RangedInt<u8, 10, 20>, pub(crate) N, pub(crate) P2, pub(crate) Nullable<u8>);
rtuple!(@refl S422 (a0: (), a1: i32, a2: u8, a3: Option<u16>, a4: U8, a5: Option<u16>, a6: Z, a7: RangedInt<u8, 10, 20>, a8: N, a9: P2, a10: Nullable<u8>));
rtuple!(S423 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, a10: u8, a11: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S424(i32, (), P2, (), Z, u16, P2, (), u8, u8, (), Z);
rtuple!(@refl S424 (a0: i32, a1: (), a2: P2, a3: (), a4: Z, a5: u16, a6: P2, a7: (), a8: u8, a9: u8, a10: (), a11: Z));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S425(pub(crate) RangedInt<u8, 10, 20>, pub(crate) Z, pub(crate) Option<u16>, pub(crate) Z, pub(crate) FixedBytes<3>, pub(crate) u8, pub(crate) U8, pub(crate) Dynamic<u8, Bytes>, pub(crate) u8, pub(crate) u16, pub(crate) U8, pub(crate) FixedBytes<3>);
rtuple!(@refl S425 (a0: RangedInt<u8, 10, 20>, a1: Z, a2: Option<u16>, a3: Z, a4: FixedBytes<3>, a5: u8, a6: U8, a7: Dynamic<u8, Bytes>, a8: u8, a9: u16, a10: U8, a11: FixedBytes<3>));
rtuple!(S426 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, a10: u8, a11: u8, a12: u8, a13: u8, a14: u8, a15: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S427(pub FixedBytes<3>, pub Z, pub u16, pub i32, pub U8, pub Dynamic<u8, Bytes>, pub Z, pub bool, pub i32, pub Z, pub Option<u16>, pub Dynamic<u8, Bytes>, pub RangedInt<u8, 10, 20>, pub u16, pub u16, pub Z);
rtuple!(@refl S427 (a0: FixedBytes<3>, a1: Z, a2: u16, a3: i32, a4: U8, a5: Dynamic<u8, Bytes>, a6: Z, a7: bool, a8: i32, a9: Z, a10: Option<u16>, a11: Dynamic<u8, Bytes>, a12: RangedInt<u8, 10, 20>, a13: u16, a14: u16, a15: Z));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S428(FixedBytes<3>, i32, Dynamic<u8, Bytes>, U8, FixedBytes<3>, N, u16, P2, Z, P2, bool, RangedInt<u8, 10, 20>, Option<u16>, (), bool, Sequence<u16>);
rtuple!(@refl S428 (a0: FixedBytes<3>, a1: i32, a2: Dynamic<u8, Bytes>, a3: U8, a4: FixedBytes<3>, a5: N, a6: u16, a7: P2, a8: Z, a9: P2, a10: bool, a11: RangedInt<u8, 10, 20>, a12: Option<u16>, a13: (), a14: bool, a15: Sequence<u16>));
rtuple!(S429 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, a10: u8, a11: u8, a12: u8, a13: u8, a14: u8, a15: u8, a16: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S430(pub u16, pub RangedInt<u8, 10, 20>, pub FixedBytes<3>, pub U8, pub FixedBytes<3>, pub N, pub RangedInt<u8, 10, 20>, pub FixedBytes<3>, pub u16, pub RangedInt<u8, 10, 20>, pub P2, pub (), pub u16, pub Dynamic<u8, Bytes>, pub N, pub Dynamic<u8, Bytes>, pub RangedInt<u8, 10, 20>);
rtuple!(@refl S430 (a0: u16, a1: RangedInt<u8, 10, 20>, a2: FixedBytes<3>, a3: U8, a4: FixedBytes<3>, a5: N, a6: RangedInt<u8, 10, 20>, a7: FixedBytes<3>, a8: u16, a9: RangedInt<u8, 10, 20>, a10: P2, a11: (), a12: u16, a13: Dynamic<u8, Bytes>, a14: N, a15: Dynamic<u8, Bytes>, a16: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S431(N, P2, P2, i32, Z, u8, U8, Dynamic<u8, Bytes>, bool, Dynamic<u8, Bytes>, N, P2, U8, P2, FixedBytes<3>, U8, i32);
rtuple!(@refl S431 (a0: N, a1: P2, a2: P2, a3: i32, a4: Z, a5: u8, a6: U8, a7: Dynamic<u8, Bytes>, a8: bool, a9: Dynamic<u8, Bytes>, a10: N, a11: P2, a12: U8, a13: P2, a14: FixedBytes<3>, a15: U8, a16: i32));
rtuple!(S432 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, a10: u8, a11: u8, a12: u8, a13: u8, a14: u8, a15: u8, a16: u8, a17: u8, a18: u8, a19: u8, a20: u8, a21: u8, a22: u8, a23: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S433(pub RangedInt<u8, 10, 20>, pub u16, pub FixedBytes<3>, pub Dynamic<u8, Bytes>, pub Dynamic<u8, Bytes>, pub i32, pub i32, pub P2, pub Dynamic<u8, Bytes>, pub u8, pub FixedBytes<3>, pub i32, pub bool, pub P2, pub FixedBytes<3>, pub bool, pub bool, pub (), pub u8, pub FixedBytes<3>, pub U8, pub Z, pub (), pub Sequence<u16>);
rtuple!(@refl S433 (a0: RangedInt<u8, 10, 20>, a1: u16, a2: FixedBytes<3>, a3: Dynamic<u8, Bytes>, a4: Dynamic<u8, Bytes>, a5: i32, a6: i32, a7: P2, a8: Dynamic<u8, Bytes>, a9: u8, a10: FixedBytes<3>, a11: i32, a12: bool, a13: P2, a14: FixedBytes<3>, a15: bool, a16: bool, a17: (), a18: u8, a19: FixedBytes<3>, a20: U8, a21: Z, a22: (), a23: Sequence<u16>));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S434(pub bool, pub RangedInt<u8, 10, 20>, pub u16, pub U8, pub Z, pub P2, pub N, pub RangedInt<u8, 10, 20>, pub i32, pub RangedInt<u8, 10, 20>, pub P2, pub (), pub N, pub (), pub Dynamic<u8, Bytes>, pub Dynamic<u8, Bytes>, pub u16, pub RangedInt<u8, 10, 20>, pub Z, pub Option<u16>, pub P2, pub U8, pub u16, pub RangedInt<u8, 10, 20>);
rtuple!(@refl S434 (a0: bool, a1: RangedInt<u8, 10, 20>, a2: u16, a3: U8, a4: Z, a5: P2, a6: N, a7: RangedInt<u8, 10, 20>, a8: i32, a9: RangedInt<u8, 10, 20>, a10: P2, a11: (), a12: N, a13: (), a14: Dynamic<u8, Bytes>, a15: Dynamic<u8, Bytes>, a16: u16, a17: RangedInt<u8, 10, 20>, a18: Z, a19: Option<u16>, a20: P2, a21: U8, a22: u16, a23: RangedInt<u8, 10, 20>));
rtuple!(S435 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, a10: u8, a11: u8, a12: u8, a13: u8, a14: u8, a15: u8, a16: u8, a17: u8, a18: u8, a19: u8, a20: u8, a21: u8, a22: u8, a23: u8, a24: u8, a25: u8, a26: u8, a27: u8, a28: u8, a29: u8, a30: u8, a31: u8, a32: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S436(pub(crate) (), pub(crate) RangedInt<u8, 10, 20>, pub(crate) FixedBytes<3>, pub(crate) Option<u16>, pub(crate) Dynamic<u8, Bytes>, pub(crate) (), pub(crate) i32, pub(crate) (), pub(crate) Dynamic<u8, Bytes>, pub(crate) i32, pub(crate) Option<u16>, pub(crate) N, pub(crate) bool, pub(crate) u16, pub(crate) P2, pub(crate) i32, pub(crate) (), pub(crate) (), pub(crate) u8, pub(crate) i32, pub(crate) RangedInt<u8, 10, 20>, pub(crate) Z, pub(crate) Option<u16>, pub(crate) u8, pub(crate) Z, pub(crate) N, pub(crate) (), pub(crate) Dynamic<u8, Bytes>, pub(crate) P2, pub(crate) (), pub(crate) u16, pub(crate) Option<u16>, pub(crate) bool);
rtuple!(@refl S436 (a0: (), a1: RangedInt<u8, 10, 20>, a2: FixedBytes<3>, a3: Option<u16>, a4: Dynamic<u8, Bytes>, a5: (), a6: i32, a7: (), a8: Dynamic<u8, Bytes>, a9: i32, a10: Option<u16>, a11: N, a12: bool, a13: u16, a14: P2, a15: i32, a16: (), a17: (), a18: u8, a19: i32, a20: RangedInt<u8, 10, 20>, a21: Z, a22: Option<u16>, a23: u8, a24: Z, a25: N, a26: (), a27: Dynamic<u8, Bytes>, a28: P2, a29: (), a30: u16, a31: Option<u16>, a32: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S437(pub i32, pub Option<u16>, pub U8, pub N, pub u16, pub RangedInt<u8, 10, 20>, pub FixedBytes<3>, pub Z, pub Dynamic<u8, Bytes>, pub Option<u16>, pub N, pub N, pub u16, pub Dynamic<u8, Bytes>, pub P2, pub (), pub i32, pub u16, pub RangedInt<u8, 10, 20>, pub i32, pub N, pub Dynamic<u8, Bytes>, pub (), pub Dynamic<u8, Bytes>, pub Option<u16>, pub U8, pub Option<u16>, pub Dynamic<u8, Bytes>, pub bool, pub Z, pub Z, pub RangedInt<u8, 10, 20>, pub Dynamic<u8, Bytes>);
rtuple!(@refl S437 (a0: i32, a1: Option<u16>, a2: U8, a3: N, a4: u16, a5: RangedInt<u8, 10, 20>, a6: FixedBytes<3>, a7: Z, a8: Dynamic<u8, Bytes>, a9: Option<u16>, a10: N, a11: N, a12: u16, a13: Dynamic<u8, Bytes>, a14: P2, a15: (), a16: i32, a17: u16, a18: RangedInt<u8, 10, 20>, a19: i32, a20: N, a21: Dynamic<u8, Bytes>, a22: (), a23: Dynamic<u8, Bytes>, a24: Option<u16>, a25: U8, a26: Option<u16>, a27: Dynamic<u8, Bytes>, a28: bool, a29: Z, a30: Z, a31: RangedInt<u8, 10, 20>, a32: Dynamic<u8, Bytes>));
ftuple!(S438 ());
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S439(pub(crate) u8);
rtuple!(@refl S439 (a0: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S440(pub u16);
rtuple!(@refl S440 (a0: u16));
ftuple!(S441 (a0: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S442(bool);
rtuple!(@refl S442 (a0: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S443(pub(crate) ());
rtuple!(@refl S443 (a0: ()));
ftuple!(S444 (a0: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S445(RangedInt<u8, 10, 20>);
rtuple!(@refl S445 (a0: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S446(pub(crate) u8, pub(crate) u8);
rtuple!(@refl S446 (a0: u8, a1: u8));
ftuple!(S447 (a0: u8, a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S448(pub u8, pub i32);
rtuple!(@refl S448 (a0: u8, a1: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S449(u8, bool);
rtuple!(@refl S449 (a0: u8, a1: bool));
ftuple!(S450 (a0: u8, a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S451(pub u8, pub FixedBytes<3>);
rtuple!(@refl S451 (a0: u8, a1: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S452(u8, RangedInt<u8, 10, 20>);
rtuple!(@refl S452 (a0: u8, a1: RangedInt<u8, 10, 20>));
ftuple!(S453 (a0: u16, a1: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S454(pub u16, pub u16);
rtuple!(@refl S454 (a0: u16, a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S455(pub u16, pub i32);
rtuple!(@refl S455 (a0: u16, a1: i32));
ftuple!(S456 (a0: u16, a1: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S457(pub(crate) u16, pub(crate) ());
rtuple!(@refl S457 (a0: u16, a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S458(pub u16, pub FixedBytes<3>);
rtuple!(@refl S458 (a0: u16, a1: FixedBytes<3>));
ftuple!(S459 (a0: u16, a1: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S460(pub(crate) i32, pub(crate) u8);
rtuple!(@refl S460 (a0: i32, a1: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S461(pub i32, pub u16);
rtuple!(@refl S461 (a0: i32, a1: u16));
ftuple!(S462 (a0: i32, a1: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S463(i32, bool);
rtuple!(@refl S463 (a0: i32, a1: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S464(pub(crate) i32, pub(crate) ());
rtuple!(@refl S464 (a0: i32, a1: ()));
ftuple!(S465 (a0: i32, a1: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S466(i32, RangedInt<u8, 10, 20>);
rtuple!(@refl S466 (a0: i32, a1: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S467(pub(crate) bool, pub(crate) u8);
rtuple!(@refl S467 (a0: bool, a1: u8));
ftuple!(S468 (a0: bool, a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S469(pub bool, pub i32);
rtuple!(@refl S469 (a0: bool, a1: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S470(bool, bool);
rtuple!(@refl S470 (a0: bool, a1: bool));
ftuple!(S471 (a0: bool, a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S472(pub bool, pub FixedBytes<3>);
rtuple!(@refl S472 (a0: bool, a1: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S473(bool, RangedInt<u8, 10, 20>);
rtuple!(@refl S473 (a0: bool, a1: RangedInt<u8, 10, 20>));
ftuple!(S474 (a0: (), a1: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S475(pub (), pub u16);
rtuple!(@refl S475 (a0: (), a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S476(pub (), pub i32);
rtuple!(@refl S476 (a0: (), a1: i32));
ftuple!(S477 (a0: (), a1: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S478(pub(crate) (), pub(crate) ());
rtuple!(@refl S478 (a0: (), a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S479(pub (), pub FixedBytes<3>);
rtuple!(@refl S479 (a0: (), a1: FixedBytes<3>));
ftuple!(S480 (a0: (), a1: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S481(pub(crate) FixedBytes<3>, pub(crate) u8);
rtuple!(@refl S481 (a0: FixedBytes<3>, a1: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S482(pub FixedBytes<3>, pub u16);
rtuple!(@refl S482 (a0: FixedBytes<3>, a1: u16));
ftuple!(S483 (a0: FixedBytes<3>, a1: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S484(FixedBytes<3>, bool);
rtuple!(@refl S484 (a0: FixedBytes<3>, a1: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S485(pub(crate) FixedBytes<3>, pub(crate) ());
rtuple!(@refl S485 (a0: FixedBytes<3>, a1: ()));
ftuple!(S486 (a0: FixedBytes<3>, a1: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S487(FixedBytes<3>, RangedInt<u8, 10, 20>);
rtuple!(@refl S487 (a0: FixedBytes<3>, a1: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S488(pub(crate) RangedInt<u8, 10, 20>, pub(crate) u8);
rtuple!(@refl S488 (a0: RangedInt<u8, 10, 20>, a1: u8));
ftuple!(S489 (a0: RangedInt<u8, 10, 20>, a1: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S490(pub RangedInt<u8, 10, 20>, pub i32);
rtuple!(@refl S490 (a0: RangedInt<u8, 10, 20>, a1: i32));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S491(RangedInt<u8, 10, 20>, bool);
rtuple!(@refl S491 (a0: RangedInt<u8, 10, 20>, a1: bool));
ftuple!(S492 (a0: RangedInt<u8, 10, 20>, a1: ()));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S493(pub RangedInt<u8, 10, 20>, pub FixedBytes<3>);
rtuple!(@refl S493 (a0: RangedInt<u8, 10, 20>, a1: FixedBytes<3>));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S494(RangedInt<u8, 10, 20>, RangedInt<u8, 10, 20>);
rtuple!(@refl S494 (a0: RangedInt<u8, 10, 20>, a1: RangedInt<u8, 10, 20>));
ftuple!(S495 (a0: u8, a1: u8, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S496(pub u8, pub u8, pub u16);
rtuple!(@refl S496 (a0: u8, a1: u8, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S497(pub u8, pub u8, pub i32);
rtuple!(@refl S497 (a0: u8, a1: u8, a2: i32));
ftuple!(S498 (a0: u8, a1: u16, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S499(pub(crate) u8, pub(crate) u16, pub(crate) u16);
rtuple!(@refl S499 (a0: u8, a1: u16, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S500(pub u8, pub u16, pub i32);
rtuple!(@refl S500 (a0: u8, a1: u16, a2: i32));
ftuple!(S501 (a0: u8, a1: i32, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S502(pub(crate) u8, pub(crate) i32, pub(crate) u16);
rtuple!(@refl S502 (a0: u8, a1: i32, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S503(pub u8, pub i32, pub i32);
rtuple!(@refl S503 (a0: u8, a1: i32, a2: i32));
ftuple!(S504 (a0: u16, a1: u8, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S505(u16, u8, u16);
rtuple!(@refl S505 (a0: u16, a1: u8, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S506(pub(crate) u16, pub(crate) u8, pub(crate) i32);
rtuple!(@refl S506 (a0: u16, a1: u8, a2: i32));
ftuple!(S507 (a0: u16, a1: u16, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S508(u16, u16, u16);
rtuple!(@refl S508 (a0: u16, a1: u16, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S509(pub(crate) u16, pub(crate) u16, pub(crate) i32);
rtuple!(@refl S509 (a0: u16, a1: u16, a2: i32));
ftuple!(S510 (a0: u16, a1: i32, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S511(pub u16, pub i32, pub u16);
rtuple!(@refl S511 (a0: u16, a1: i32, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S512(u16, i32, i32);
rtuple!(@refl S512 (a0: u16, a1: i32, a2: i32));
ftuple!(S513 (a0: i32, a1: u8, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S514(pub i32, pub u8, pub u16);
rtuple!(@refl S514 (a0: i32, a1: u8, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S515(i32, u8, i32);
rtuple!(@refl S515 (a0: i32, a1: u8, a2: i32));
ftuple!(S516 (a0: i32, a1: u16, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S517(pub i32, pub u16, pub u16);
rtuple!(@refl S517 (a0: i32, a1: u16, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S518(pub i32, pub u16, pub i32);
rtuple!(@refl S518 (a0: i32, a1: u16, a2: i32));
ftuple!(S519 (a0: i32, a1: i32, a2: u8));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S520(pub(crate) i32, pub(crate) i32, pub(crate) u16);
rtuple!(@refl S520 (a0: i32, a1: i32, a2: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S521(pub i32, pub i32, pub i32);
rtuple!(@refl S521 (a0: i32, a1: i32, a2: i32));
ftuple!(S522 (a0: (), a1: u8, a2: bool, a3: RangedInt<u8, 10, 20>));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S523(pub(crate) FixedBytes<3>, pub(crate) u16, pub(crate) (), pub(crate) u8, pub(crate) bool);
rtuple!(@refl S523 (a0: FixedBytes<3>, a1: u16, a2: (), a3: u8, a4: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S524(pub u8, pub bool, pub RangedInt<u8, 10, 20>, pub i32, pub FixedBytes<3>, pub u16, pub ());
rtuple!(@refl S524 (a0: u8, a1: bool, a2: RangedInt<u8, 10, 20>, a3: i32, a4: FixedBytes<3>, a5: u16, a6: ()));
ftuple!(S525 (a0: u16, a1: (), a2: u8, a3: bool, a4: RangedInt<u8, 10, 20>, a5: i32, a6: FixedBytes<3>, a7: u16));
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S526(FixedBytes<3>, u16, (), u8, bool, RangedInt<u8, 10, 20>, i32, FixedBytes<3>, u16, (), u8, bool);
rtuple!(@refl S526 (a0: FixedBytes<3>, a1: u16, a2: (), a3: u8, a4: bool, a5: RangedInt<u8, 10, 20>, a6: i32, a7: FixedBytes<3>, a8: u16, a9: (), a10: u8, a11: bool));
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S527 {  }
rstruct!(@refl S527 {  });
rstruct!(S528 { f: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S529 { r#type: u16 }
rstruct!(@refl S529 { r#type: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S530 { pub(crate) len: i32 }
rstruct!(@refl S530 { len: i32 });
rstruct!(S531 { unknown: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S532 { pub x: () }
rstruct!(@refl S532 { x: () });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S533 { buf: FixedBytes<3> }
rstruct!(@refl S533 { buf: FixedBytes<3> });
rstruct!(S534 { p: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S535 { pub f: Dynamic<u8, Bytes> }
rstruct!(@refl S535 { f: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S536 { r#type: Option<u16> }
rstruct!(@refl S536 { r#type: Option<u16> });
rstruct!(S537 { len: N });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S538 { pub unknown: Z }
rstruct!(@refl S538 { unknown: Z });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S539 { pub x: Bytes }
rstruct!(@refl S539 { x: Bytes });
rstruct!(S540 { buf: Sequence<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S541 { pub(crate) p: Nullable<u8> }
rstruct!(@refl S541 { p: Nullable<u8> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S542 { pub f: P2 }
rstruct!(@refl S542 { f: P2 });
rstruct!(S543 { r#type: U8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S544 { pub(crate) write_to: u8, pub(crate) parse: u8 }
rstruct!(@refl S544 { write_to: u8, parse: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S545 { pub _b: u8, pub _a: u16 }
rstruct!(@refl S545 { _b: u8, _a: u16 });
rstruct!(S546 { b: u8, a: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S547 { p: u8, buf: bool }
rstruct!(@refl S547 { p: u8, buf: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S548 { pub(crate) r#type: u8, pub(crate) f: () }
rstruct!(@refl S548 { r#type: u8, f: () });
rstruct!(S549 { zz: u8, Aa: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S550 { pos1: u8, pos0: RangedInt<u8, 10, 20> }
rstruct!(@refl S550 { pos1: u8, pos0: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S551 { pub(crate) write_to: u8, pub(crate) parse: Dynamic<u8, Bytes> }
rstruct!(@refl S551 { write_to: u8, parse: Dynamic<u8, Bytes> });
rstruct!(S552 { _b: u8, _a: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S553 { pub b: u8, pub a: N }
rstruct!(@refl S553 { b: u8, a: N });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S554 { p: u8, buf: Z }
rstruct!(@refl S554 { p: u8, buf: Z });
rstruct!(S555 { r#type: u8, f: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S556 { pub zz: u8, pub Aa: Sequence<u16> }
rstruct!(@refl S556 { zz: u8, Aa: Sequence<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S557 { pos1: u8, pos0: Nullable<u8> }
rstruct!(@refl S557 { pos1: u8, pos0: Nullable<u8> });
rstruct!(S558 { write_to: u8, parse: P2 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S559 { pub _b: u8, pub _a: U8 }
rstruct!(@refl S559 { _b: u8, _a: U8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S560 { pub b: u16, pub a: u8 }
rstruct!(@refl S560 { b: u16, a: u8 });
rstruct!(S561 { p: u16, buf: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S562 { pub(crate) r#type: u16, pub(crate) f: i32 }
rstruct!(@refl S562 { r#type: u16, f: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S563 { pub zz: u16, pub Aa: bool }
rstruct!(@refl S563 { zz: u16, Aa: bool });
rstruct!(S564 { pos1: u16, pos0: () });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S565 { pub(crate) write_to: u16, pub(crate) parse: FixedBytes<3> }
rstruct!(@refl S565 { write_to: u16, parse: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S566 { pub _b: u16, pub _a: RangedInt<u8, 10, 20> }
rstruct!(@refl S566 { _b: u16, _a: RangedInt<u8, 10, 20> });
rstruct!(S567 { b: u16, a: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S568 { p: u16, buf: Option<u16> }
rstruct!(@refl S568 { p: u16, buf: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S569 { pub(crate) r#type: u16, pub(crate) f: N }
rstruct!(@refl S569 { r#type: u16, f: N });
rstruct!(S570 { zz: u16, Aa: Z });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S571 { pos1: u16, pos0: Bytes }
rstruct!(@refl S571 { pos1: u16, pos0: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S572 { pub(crate) write_to: u16, pub(crate) parse: Sequence<u16> }
rstruct!(@refl S572 { write_to: u16, parse: Sequence<u16> });
rstruct!(S573 { _b: u16, _a: Nullable<u8> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S574 { pub b: u16, pub a: P2 }
rstruct!(@refl S574 { b: u16, a: P2 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S575 { p: u16, buf: U8 }
rstruct!(@refl S575 { p: u16, buf: U8 });
rstruct!(S576 { r#type: i32, f: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S577 { pub zz: i32, pub Aa: u16 }
rstruct!(@refl S577 { zz: i32, Aa: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S578 { pos1: i32, pos0: i32 }
rstruct!(@refl S578 { pos1: i32, pos0: i32 });
rstruct!(S579 { write_to: i32, parse: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S580 { pub _b: i32, pub _a: () }
rstruct!(@refl S580 { _b: i32, _a: () });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S581 { pub b: i32, pub a: FixedBytes<3> }
rstruct!(@refl S581 { b: i32, a: FixedBytes<3> });
rstruct!(S582 { p: i32, buf: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S583 { pub(crate) r#type: i32, pub(crate) f: Dynamic<u8, Bytes> }
rstruct!(@refl S583 { r#type: i32, f: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S584 { pub zz: i32, pub Aa: Option<u16> }
rstruct!(@refl S584 { zz: i32, Aa: Option<u16> });
rstruct!(S585 { pos1: i32, pos0: N });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S586 { pub(crate) write_to: i32, pub(crate) parse: Z }
rstruct!(@refl S586 { write_to: i32, parse: Z });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S587 { pub _b: i32, pub _a: Bytes }
rstruct!(@refl S587 { _b: i32, _a: Bytes });
rstruct!(S588 { b: i32, a: Sequence<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S589 { p: i32, buf: Nullable<u8> }
rstruct!(@refl S589 { p: i32, buf: Nullable<u8> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S590 { pub(crate) r#type: i32, pub(crate) f: P2 }
rstruct!(@refl S590 { r#type: i32, f: P2 });
rstruct!(S591 { zz: i32, Aa: U8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S592 { pos1: bool, pos0: u8 }
rstruct!(@refl S592 { pos1: bool, pos0: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S593 { pub(crate) write_to: bool, pub(crate) parse: u16 }
rstruct!(@refl S593 { write_to: bool, parse: u16 });
rstruct!(S594 { _b: bool, _a: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S595 { pub b: bool, pub a: bool }
rstruct!(@refl S595 { b: bool, a: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S596 { p: bool, buf: () }
rstruct!(@refl S596 { p: bool, buf: () });
rstruct!(S597 { r#type: bool, f: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S598 { pub zz: bool, pub Aa: RangedInt<u8, 10, 20> }
rstruct!(@refl S598 { zz: bool, Aa: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S599 { pos1: bool, pos0: Dynamic<u8, Bytes> }
rstruct!(@refl S599 { pos1: bool, pos0: Dynamic<u8, Bytes> });
rstruct!(S600 { write_to: bool, parse: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S601 { pub _b: bool, pub _a: N }
rstruct!(@refl S601 { _b: bool, _a: N });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S602 { pub b: bool, pub a: Z }
rstruct!(@refl S602 { b: bool, a: Z });
rstruct!(S603 { p: bool, buf: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S604 { pub(crate) r#type: bool, pub(crate) f: Sequence<u16> }
rstruct!(@refl S604 { r#type: bool, f: Sequence<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S605 { pub zz: bool, pub Aa: Nullable<u8> }
rstruct!(@refl S605 { zz: bool, Aa: Nullable<u8> });
rstruct!(S606 { pos1: bool, pos0: P2 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S607 { pub(crate) write_to: bool, pub(crate) parse: U8 }
rstruct!(@refl S607 { write_to: bool, parse: U8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S608 { pub _b: (), pub _a: u8 }
rstruct!(@refl S608 { _b: (), _a: u8 });
rstruct!(S609 { b: (), a: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S610 { p: (), buf: i32 }
rstruct!(@refl S610 { p: (), buf: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S611 { pub(crate) r#type: (), pub(crate) f: bool }
rstruct!(@refl S611 { r#type: (), f: bool });
rstruct!(S612 { zz: (), Aa: () });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S613 { pos1: (), pos0: FixedBytes<3> }
rstruct!(@refl S613 { pos1: (), pos0: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S614 { pub(crate) write_to: (), pub(crate) parse: RangedInt<u8, 10, 20> }
rstruct!(@refl S614 { write_to: (), parse: RangedInt<u8, 10, 20> });
rstruct!(S615 { _b: (), _a: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S616 { pub b: (), pub a: Option<u16> }
rstruct!(@refl S616 { b: (), a: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S617 { p: (), buf: N }
rstruct!(@refl S617 { p: (), buf: N });
rstruct!(S618 { r#type: (), f: Z });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S619 { pub zz: (), pub Aa: Bytes }
rstruct!(@refl S619 { zz: (), Aa: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S620 { pos1: (), pos0: Sequence<u16> }
rstruct!(@refl S620 { pos1: (), pos0: Sequence<u16> });
rstruct!(S621 { write_to: (), parse: Nullable<u8> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S622 { pub _b: (), pub _a: P2 }
rstruct!(@refl S622 { _b: (), _a: P2 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S623 { pub b: (), pub a: U8 }
rstruct!(@refl S623 { b: (), a: U8 });
rstruct!(S624 { p: FixedBytes<3>, buf: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S625 { pub(crate) r#type: FixedBytes<3>, pub(crate) f: u16 }
rstruct!(@refl S625 { r#type: FixedBytes<3>, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S626 { pub zz: FixedBytes<3>, pub Aa: i32 }
rstruct!(@refl S626 { zz: FixedBytes<3>, Aa: i32 });
rstruct!(S627 { pos1: FixedBytes<3>, pos0: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S628 { pub(crate) write_to: FixedBytes<3>, pub(crate) parse: () }
rstruct!(@refl S628 { write_to: FixedBytes<3>, parse: () });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S629 { pub _b: FixedBytes<3>, pub _a: FixedBytes<3> }
rstruct!(@refl S629 { _b: FixedBytes<3>, _a: FixedBytes<3> });
rstruct!(S630 { b: FixedBytes<3>, a: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S631 { p: FixedBytes<3>, buf: Dynamic<u8, Bytes> }
rstruct!(@refl S631 { p: FixedBytes<3>, buf: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S632 { pub(crate) r#type: FixedBytes<3>, pub(crate) f: Option<u16> }
rstruct!(@refl S632 { r#type: FixedBytes<3>, f: Option<u16> });
rstruct!(S633 { zz: FixedBytes<3>, Aa: N });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S634 { pos1: FixedBytes<3>, pos0: Z }
rstruct!(@refl S634 { pos1: FixedBytes<3>, pos0: Z });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S635 { pub(crate) write_to: FixedBytes<3>, pub(crate) parse: Bytes }
rstruct!(@refl S635 { write_to: FixedBytes<3>, parse: Bytes });
rstruct!(S636 { _b: FixedBytes<3>, _a: Sequence<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S637 { pub b: FixedBytes<3>, pub a: Nullable<u8> }
rstruct!(@refl S637 { b: FixedBytes<3>, a: Nullable<u8> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S638 { p: FixedBytes<3>, buf: P2 }
rstruct!(@refl S638 { p: FixedBytes<3>, buf: P2 });
rstruct!(S639 { r#type: FixedBytes<3>, f: U8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S640 { pub zz: RangedInt<u8, 10, 20>, pub Aa: u8 }
rstruct!(@refl S640 { zz: RangedInt<u8, 10, 20>, Aa: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S641 { pos1: RangedInt<u8, 10, 20>, pos0: u16 }
rstruct!(@refl S641 { pos1: RangedInt<u8, 10, 20>, pos0: u16 });
rstruct!(S642 { write_to: RangedInt<u8, 10, 20>, parse: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S643 { pub _b: RangedInt<u8, 10, 20>, pub _a: bool }
rstruct!(@refl S643 { _b: RangedInt<u8, 10, 20>, _a: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S644 { pub b: RangedInt<u8, 10, 20>, pub a: () }
rstruct!(@refl S644 { b: RangedInt<u8, 10, 20>, a: () });
rstruct!(S645 { p: RangedInt<u8, 10, 20>, buf: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S646 { pub(crate) r#type: RangedInt<u8, 10, 20>, pub(crate) f: RangedInt<u8, 10, 20> }
rstruct!(@refl S646 { r#type: RangedInt<u8, 10, 20>, f: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S647 { pub zz: RangedInt<u8, 10, 20>, pub Aa: Dynamic<u8, Bytes> }
rstruct!(@refl S647 { zz: RangedInt<u8, 10, 20>, Aa: Dynamic<u8, Bytes> });
rstruct!(S648 { pos1: RangedInt<u8, 10, 20>, pos0: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S649 { pub(crate) write_to: RangedInt<u8, 10, 20>, pub(crate) parse: N }
rstruct!(@refl S649 { write_to: RangedInt<u8, 10, 20>, parse: N });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S650 { pub _b: RangedInt<u8, 10, 20>, pub _a: Z }
rstruct!(@refl S650 { _b: RangedInt<u8, 10, 20>, _a: Z });
rstruct!(S651 { b: RangedInt<u8, 10, 20>, a: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S652 { p: RangedInt<u8, 10, 20>, buf: Sequence<u16> }
rstruct!(@refl S652 { p: RangedInt<u8, 10, 20>, buf: Sequence<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S653 { pub(crate) r#type: RangedInt<u8, 10, 20>, pub(crate) f: Nullable<u8> }
rstruct!(@refl S653 { r#type: RangedInt<u8, 10, 20>, f: Nullable<u8> });
rstruct!(S654 { zz: RangedInt<u8, 10, 20>, Aa: P2 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S655 { pos1: RangedInt<u8, 10, 20>, pos0: U8 }
rstruct!(@refl S655 { pos1: RangedInt<u8, 10, 20>, pos0: U8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S656 { pub(crate) write_to: Dynamic<u8, Bytes>, pub(crate) parse: u8 }
rstruct!(@refl S656 { write_to: Dynamic<u8, Bytes>, parse: u8 });
rstruct!(S657 { _b: Dynamic<u8, Bytes>, _a: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S658 { pub b: Dynamic<u8, Bytes>, pub a: i32 }
rstruct!(@refl S658 { b: Dynamic<u8, Bytes>, a: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S659 { p: Dynamic<u8, Bytes>, buf: bool }
rstruct!(@refl S659 { p: Dynamic<u8, Bytes>, buf: bool });
rstruct!(S660 { r#type: Dynamic<u8, Bytes>, f: () });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S661 { pub zz: Dynamic<u8, Bytes>, pub Aa: FixedBytes<3> }
rstruct!(@refl S661 { zz: Dynamic<u8, Bytes>, Aa: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S662 { pos1: Dynamic<u8, Bytes>, pos0: RangedInt<u8, 10, 20> }
rstruct!(@refl S662 { pos1: Dynamic<u8, Bytes>, pos0: RangedInt<u8, 10, 20> });
rstruct!(S663 { write_to: Dynamic<u8, Bytes>, parse: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S664 { pub _b: Dynamic<u8, Bytes>, pub _a: Option<u16> }
rstruct!(@refl S664 { _b: Dynamic<u8, Bytes>, _a: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S665 { pub b: Dynamic<u8, Bytes>, pub a: N }
rstruct!(@refl S665 { b: Dynamic<u8, Bytes>, a: N });
rstruct!(S666 { p: Dynamic<u8, Bytes>, buf: Z });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S667 { pub(crate) r#type: Dynamic<u8, Bytes>, pub(crate) f: Bytes }
rstruct!(@refl S667 { r#type: Dynamic<u8, Bytes>, f: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S668 { pub zz: Dynamic<u8, Bytes>, pub Aa: Sequence<u16> }
rstruct!(@refl S668 { zz: Dynamic<u8, Bytes>, Aa: Sequence<u16> });
rstruct!(S669 { pos1: Dynamic<u8, Bytes>, pos0: Nullable<u8> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S670 { pub(crate) write_to: Dynamic<u8, Bytes>, pub(crate) parse: P2 }
rstruct!(@refl S670 { write_to: Dynamic<u8, Bytes>, parse: P2 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S671 { pub _b: Dynamic<u8, Bytes>, pub _a: U8 }
rstruct!(@refl S671 { _b: Dynamic<u8, Bytes>, _a: U8 });
rstruct!(S672 { b: Option<u16>, a: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S673 { p: Option<u16>, buf: u16 }
rstruct!(@refl S673 { p: Option<u16>, buf: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S674 { pub(crate) r#type: Option<u16>, pub(crate) f: i32 }
rstruct!(@refl S674 { r#type: Option<u16>, f: i32 });
rstruct!(S675 { zz: Option<u16>, Aa: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S676 { pos1: Option<u16>, pos0: () }
rstruct!(@refl S676 { pos1: Option<u16>, pos0: () });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S677 { pub(crate) write_to: Option<u16>, pub(crate) parse: FixedBytes<3> }
rstruct!(@refl S677 { write_to: Option<u16>, parse: FixedBytes<3> });
rstruct!(S678 { _b: Option<u16>, _a: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S679 { pub b: Option<u16>, pub a: Dynamic<u8, Bytes> }
rstruct!(@refl S679 { b: Option<u16>, a: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S680 { p: Option<u16>, buf: Option<u16> }
rstruct!(@refl S680 { p: Option<u16>, buf: Option<u16> });
rstruct!(S681 { r#type: Option<u16>, f: N });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S682 { pub zz: Option<u16>, pub Aa: Z }
rstruct!(@refl S682 { zz: Option<u16>, Aa: Z });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S683 { pos1: Option<u16>, pos0: Bytes }
rstruct!(@refl S683 { pos1: Option<u16>, pos0: Bytes });
rstruct!(S684 { write_to: Option<u16>, parse: Sequence<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S685 { pub _b: Option<u16>, pub _a: Nullable<u8> }
rstruct!(@refl S685 { _b: Option<u16>, _a: Nullable<u8> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S686 { pub b: Option<u16>, pub a: P2 }
rstruct!(@refl S686 { b: Option<u16>, a: P2 });
rstruct!(S687 { p: Option<u16>, buf: U8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S688 { pub(crate) r#type: N, pub(crate) f: u8 }
rstruct!(@refl S688 { r#type: N, f: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S689 { pub zz: N, pub Aa: u16 }
rstruct!(@refl S689 { zz: N, Aa: u16 });
rstruct!(S690 { pos1: N, pos0: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S691 { pub(crate) write_to: N, pub(crate) parse: bool }
rstruct!(@refl S691 { write_to: N, parse: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S692 { pub _b: N, pub _a: () }
rstruct!(@refl S692 { _b: N, _a: () });
rstruct!(S693 { b: N, a: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S694 { p: N, buf: RangedInt<u8, 10, 20> }
rstruct!(@refl S694 { p: N, buf: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S695 { pub(crate) r#type: N, pub(crate) f: Dynamic<u8, Bytes> }
rstruct!(@refl S695 { r#type: N, f: Dynamic<u8, Bytes> });
rstruct!(S696 { zz: N, Aa: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S697 { pos1: N, pos0: N }
rstruct!(@refl S697 { pos1: N, pos0: N });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S698 { pub(crate) write_to: N, pub(crate) parse: Z }
rstruct!(@refl S698 { write_to: N, parse: Z });
rstruct!(S699 { _b: N, _a: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S700 { pub b: N, pub a: Sequence<u16> }
rstruct!(@refl S700 { b: N, a: Sequence<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S701 { p: N, buf: Nullable<u8> }
rstruct!(@refl S701 { p: N, buf: Nullable<u8> });
rstruct!(S702 { r#type: N, f: P2 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S703 { pub zz: N, pub Aa: U8 }
rstruct!(@refl S703 { zz: N, Aa: U8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S704 { pos1: Z, pos0: u8 }
rstruct!(@refl S704 { pos1: Z, pos0: u8 });
rstruct!(S705 { write_to: Z, parse: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S706 { pub _b: Z, pub _a: i32 }
rstruct!(@refl S706 { _b: Z, _a: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S707 { pub b: Z, pub a: bool }
rstruct!(@refl S707 { b: Z, a: bool });
rstruct!(S708 { p: Z, buf: () });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S709 { pub(crate) r#type: Z, pub(crate) f: FixedBytes<3> }
rstruct!(@refl S709 { r#type: Z, f: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S710 { pub zz: Z, pub Aa: RangedInt<u8, 10, 20> }
rstruct!(@refl S710 { zz: Z, Aa: RangedInt<u8, 10, 20> });
rstruct!(S711 { pos1: Z, pos0: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S712 { pub(crate) write_to: Z, pub(crate) parse: Option<u16> }
rstruct!(@refl S712 { write_to: Z, parse: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S713 { pub _b: Z, pub _a: N }
rstruct!(@refl S713 { _b: Z, _a: N });
rstruct!(S714 { b: Z, a: Z });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S715 { p: Z, buf: Bytes }
rstruct!(@refl S715 { p: Z, buf: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S716 { pub(crate) r#type: Z, pub(crate) f: Sequence<u16> }
rstruct!(@refl S716 { r#type: Z, f: Sequence<u16> });
rstruct!(S717 { zz: Z, Aa: Nullable<u8> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S718 { pos1: Z, pos0: P2 }
rstruct!(@refl S718 { pos1: Z, pos0: P2 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S719 { pub(crate) write_to: Z, pub(crate) parse: U8 }
rstruct!(@refl S719 { write_to: Z, parse: U8 });
rstruct!(S720 { _b: Bytes, _a: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S721 { pub b: Bytes, pub a: u16 }
rstruct!(@refl S721 { b: Bytes, a: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S722 { p: Bytes, buf: i32 }
rstruct!(@refl S722 { p: Bytes, buf: i32 });
rstruct!(S723 { r#type: Bytes, f: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S724 { pub zz: Bytes, pub Aa: () }
rstruct!(@refl S724 { zz: Bytes, Aa: () });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S725 { pos1: Bytes, pos0: FixedBytes<3> }
rstruct!(@refl S725 { pos1: Bytes, pos0: FixedBytes<3> });
rstruct!(S726 { write_to: Bytes, parse: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S727 { pub _b: Bytes, pub _a: Dynamic<u8, Bytes> }
rstruct!(@refl S727 { _b: Bytes, _a: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S728 { pub b: Bytes, pub a: Option<u16> }
rstruct!(@refl S728 { b: Bytes, a: Option<u16> });
rstruct!(S729 { p: Bytes, buf: N });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S730 { pub(crate) r#type: Bytes, pub(crate) f: Z }
rstruct!(@refl S730 { r#type: Bytes, f: Z });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S731 { pub zz: Bytes, pub Aa: Bytes }
rstruct!(@refl S731 { zz: Bytes, Aa: Bytes });
rstruct!(S732 { pos1: Bytes, pos0: Sequence<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S733 { pub(crate) write_to: Bytes, pub(crate) parse: Nullable<u8> }
rstruct!(@refl S733 { write_to: Bytes, parse: Nullable<u8> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S734 { pub _b: Bytes, pub _a: P2 }
rstruct!(@refl S734 { _b: Bytes, _a: P2 });
rstruct!(S735 { b: Bytes, a: U8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S736 { p: Sequence<u16>, buf: u8 }
rstruct!(@refl S736 { p: Sequence<u16>, buf: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S737 { pub(crate) r#type: Sequence<u16>, pub(crate) f: u16 }
rstruct!(@refl S737 { r#type: Sequence<u16>, f: u16 });
rstruct!(S738 { zz: Sequence<u16>, Aa: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S739 { pos1: Sequence<u16>, pos0: bool }
rstruct!(@refl S739 { pos1: Sequence<u16>, pos0: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S740 { pub(crate) write_to: Sequence<u16>, pub(crate) parse: () }
rstruct!(@refl S740 { write_to: Sequence<u16>, parse: () });
rstruct!(S741 { _b: Sequence<u16>, _a: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S742 { pub b: Sequence<u16>, pub a: RangedInt<u8, 10, 20> }
rstruct!(@refl S742 { b: Sequence<u16>, a: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S743 { p: Sequence<u16>, buf: Dynamic<u8, Bytes> }
rstruct!(@refl S743 { p: Sequence<u16>, buf: Dynamic<u8, Bytes> });
rstruct!(S744 { r#type: Sequence<u16>, f: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S745 { pub zz: Sequence<u16>, pub Aa: N }
rstruct!(@refl S745 { zz: Sequence<u16>, Aa: N });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S746 { pos1: Sequence<u16>, pos0: Z }
rstruct!(@refl S746 { pos1: Sequence<u16>, pos0: Z });
rstruct!(S747 { write_to: Sequence<u16>, parse: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S748 { pub _b: Sequence<u16>, pub _a: Sequence<u16> }
rstruct!(@refl S748 { _b: Sequence<u16>, _a: Sequence<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S749 { pub b: Sequence<u16>, pub a: Nullable<u8> }
rstruct!(@refl S749 { b: Sequence<u16>, a: Nullable<u8> });
rstruct!(S750 { p: Sequence<u16>, buf: P2 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S751 { pub(crate) r#type: Sequence<u16>, pub(crate) f: U8 }
rstruct!(@refl S751 { r#type: Sequence<u16>, f: U8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S752 { pub zz: Nullable<u8>, pub Aa: u8 }
rstruct!(@refl S752 { zz: Nullable<u8>, Aa: u8 });
rstruct!(S753 { pos1: Nullable<u8>, pos0: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S754 { pub(crate) write_to: Nullable<u8>, pub(crate) parse: i32 }
rstruct!(@refl S754 { write_to: Nullable<u8>, parse: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S755 { pub _b: Nullable<u8>, pub _a: bool }
rstruct!(@refl S755 { _b: Nullable<u8>, _a: bool });
rstruct!(S756 { b: Nullable<u8>, a: () });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S757 { p: Nullable<u8>, buf: FixedBytes<3> }
rstruct!(@refl S757 { p: Nullable<u8>, buf: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S758 { pub(crate) r#type: Nullable<u8>, pub(crate) f: RangedInt<u8, 10, 20> }
rstruct!(@refl S758 { r#type: Nullable<u8>, f: RangedInt<u8, 10, 20> });
rstruct!(S759 { zz: Nullable<u8>, Aa: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S760 { pos1: Nullable<u8>, pos0: Option<u16> }
rstruct!(@refl S760 { pos1: Nullable<u8>, pos0: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S761 { pub(crate) write_to: Nullable<u8>, pub(crate) parse: N }
rstruct!(@refl S761 { write_to: Nullable<u8>, parse: N });
rstruct!(S762 { _b: Nullable<u8>, _a: Z });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S763 { pub b: Nullable<u8>, pub a: Bytes }
rstruct!(@refl S763 { b: Nullable<u8>, a: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S764 { p: Nullable<u8>, buf: Sequence<u16> }
rstruct!(@refl S764 { p: Nullable<u8>, buf: Sequence<u16> });
rstruct!(S765 { r#type: Nullable<u8>, f: Nullable<u8> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S766 { pub zz: Nullable<u8>, pub Aa: P2 }
rstruct!(@refl S766 { zz: Nullable<u8>, Aa: P2 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S767 { pos1: Nullable<u8>, pos0: U8 }
rstruct!(@refl S767 { pos1: Nullable<u8>, pos0: U8 });
rstruct!(S768 { write_to: P2, parse: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S769 { pub _b: P2, pub _a: u16 }
rstruct!(@refl S769 { _b: P2, _a: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S770 { pub b: P2, pub a: i32 }
rstruct!(@refl S770 { b: P2, a: i32 });
rstruct!(S771 { p: P2, buf: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S772 { pub(crate) r#type: P2, pub(crate) f: () }
rstruct!(@refl S772 { r#type: P2, f: () });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S773 { pub zz: P2, pub Aa: FixedBytes<3> }
rstruct!(@refl S773 { zz: P2, Aa: FixedBytes<3> });
rstruct!(S774 { pos1: P2, pos0: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S775 { pub(crate) write_to: P2, pub(crate) parse: Dynamic<u8, Bytes> }
rstruct!(@refl S775 { write_to: P2, parse: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S776 { pub _b: P2, pub _a: Option<u16> }
rstruct!(@refl S776 { _b: P2, _a: Option<u16> });
rstruct!(S777 { b: P2, a: N });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S778 { p: P2, buf: Z }
rstruct!(@refl S778 { p: P2, buf: Z });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S779 { pub(crate) r#type: P2, pub(crate) f: Bytes }
rstruct!(@refl S779 { r#type: P2, f: Bytes });
rstruct!(S780 { zz: P2, Aa: Sequence<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S781 { pos1: P2, pos0: Nullable<u8> }
rstruct!(@refl S781 { pos1: P2, pos0: Nullable<u8> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S782 { pub(crate) write_to: P2, pub(crate) parse: P2 }
rstruct!(@refl S782 { write_to: P2, parse: P2 });
rstruct!(S783 { _b: P2, _a: U8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S784 { pub b: U8, pub a: u8 }
rstruct!(@refl S784 { b: U8, a: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S785 { p: U8, buf: u16 }
rstruct!(@refl S785 { p: U8, buf: u16 });
rstruct!(S786 { r#type: U8, f: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S787 { pub zz: U8, pub Aa: bool }
rstruct!(@refl S787 { zz: U8, Aa: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S788 { pos1: U8, pos0: () }
rstruct!(@refl S788 { pos1: U8, pos0: () });
rstruct!(S789 { write_to: U8, parse: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S790 { pub _b: U8, pub _a: RangedInt<u8, 10, 20> }
rstruct!(@refl S790 { _b: U8, _a: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S791 { pub b: U8, pub a: Dynamic<u8, Bytes> }
rstruct!(@refl S791 { b: U8, a: Dynamic<u8, Bytes> });
rstruct!(S792 { p: U8, buf: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S793 { pub(crate) r#type: U8, pub(crate) f: N }
rstruct!(@refl S793 { r#type: U8, f: N });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S794 { pub zz: U8, pub Aa: Z }
rstruct!(@refl S794 { zz: U8, Aa: Z });
rstruct!(S795 { pos1: U8, pos0: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S796 { pub(crate) write_to: U8, pub(crate) parse: Sequence<u16> }
rstruct!(@refl S796 { write_to: U8, parse: Sequence<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S797 { pub _b: U8, pub _a: Nullable<u8> }
rstruct!(@refl S797 { _b: U8, _a: Nullable<u8> });
rstruct!(S798 { b: U8, a: P2 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S799 { p: U8, buf: U8 }
rstruct!(@refl S799 { p: U8, buf: U8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S800 { pub(crate) c: u8, pub(crate) a: u8, pub(crate) b: u8 }
rstruct!(@refl S800 { c: u8, a: u8, b: u8 });
rstruct!(S801 { buf: u8, p: u8, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S802 { z9: u8, z10: u8, z1: Dynamic<u8, Bytes> }
rstruct!(@refl S802 { z9: u8, z10: u8, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S803 { pub(crate) r#fn: u8, pub(crate) r#type: u8, pub(crate) r#in: Option<u16> }
rstruct!(@refl S803 { r#fn: u8, r#type: u8, r#in: Option<u16> });
rstruct!(S804 { pos2: u8, pos0: u8, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S805 { pub c: u8, pub a: u16, pub b: u8 }
rstruct!(@refl S805 { c: u8, a: u16, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S806 { buf: u8, p: u16, f: u16 }
rstruct!(@refl S806 { buf: u8, p: u16, f: u16 });
rstruct!(S807 { z9: u8, z10: u16, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S808 { pub r#fn: u8, pub r#type: u16, pub r#in: Option<u16> }
rstruct!(@refl S808 { r#fn: u8, r#type: u16, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S809 { pos2: u8, pos0: u16, pos1: Bytes }
rstruct!(@refl S809 { pos2: u8, pos0: u16, pos1: Bytes });
rstruct!(S810 { c: u8, a: Dynamic<u8, Bytes>, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S811 { pub buf: u8, pub p: Dynamic<u8, Bytes>, pub f: u16 }
rstruct!(@refl S811 { buf: u8, p: Dynamic<u8, Bytes>, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S812 { pub z9: u8, pub z10: Dynamic<u8, Bytes>, pub z1: Dynamic<u8, Bytes> }
rstruct!(@refl S812 { z9: u8, z10: Dynamic<u8, Bytes>, z1: Dynamic<u8, Bytes> });
rstruct!(S813 { r#fn: u8, r#type: Dynamic<u8, Bytes>, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S814 { pub(crate) pos2: u8, pub(crate) pos0: Dynamic<u8, Bytes>, pub(crate) pos1: Bytes }
rstruct!(@refl S814 { pos2: u8, pos0: Dynamic<u8, Bytes>, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S815 { pub c: u8, pub a: Option<u16>, pub b: u8 }
rstruct!(@refl S815 { c: u8, a: Option<u16>, b: u8 });
rstruct!(S816 { buf: u8, p: Option<u16>, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S817 { pub(crate) z9: u8, pub(crate) z10: Option<u16>, pub(crate) z1: Dynamic<u8, Bytes> }
rstruct!(@refl S817 { z9: u8, z10: Option<u16>, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S818 { pub r#fn: u8, pub r#type: Option<u16>, pub r#in: Option<u16> }
rstruct!(@refl S818 { r#fn: u8, r#type: Option<u16>, r#in: Option<u16> });
rstruct!(S819 { pos2: u8, pos0: Option<u16>, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S820 { c: u8, a: Bytes, b: u8 }
rstruct!(@refl S820 { c: u8, a: Bytes, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S821 { pub(crate) buf: u8, pub(crate) p: Bytes, pub(crate) f: u16 }
rstruct!(@refl S821 { buf: u8, p: Bytes, f: u16 });
rstruct!(S822 { z9: u8, z10: Bytes, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S823 { r#fn: u8, r#type: Bytes, r#in: Option<u16> }
rstruct!(@refl S823 { r#fn: u8, r#type: Bytes, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S824 { pub(crate) pos2: u8, pub(crate) pos0: Bytes, pub(crate) pos1: Bytes }
rstruct!(@refl S824 { pos2: u8, pos0: Bytes, pos1: Bytes });
rstruct!(S825 { c: u16, a: u8, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S826 { pub buf: u16, pub p: u8, pub f: u16 }
rstruct!(@refl S826 { buf: u16, p: u8, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S827 { z9: u16, z10: u8, z1: Dynamic<u8, Bytes> }
rstruct!(@refl S827 { z9: u16, z10: u8, z1: Dynamic<u8, Bytes> });
rstruct!(S828 { r#fn: u16, r#type: u8, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S829 { pub pos2: u16, pub pos0: u8, pub pos1: Bytes }
rstruct!(@refl S829 { pos2: u16, pos0: u8, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S830 { c: u16, a: u16, b: u8 }
rstruct!(@refl S830 { c: u16, a: u16, b: u8 });
rstruct!(S831 { buf: u16, p: u16, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S832 { pub z9: u16, pub z10: u16, pub z1: Dynamic<u8, Bytes> }
rstruct!(@refl S832 { z9: u16, z10: u16, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S833 { pub r#fn: u16, pub r#type: u16, pub r#in: Option<u16> }
rstruct!(@refl S833 { r#fn: u16, r#type: u16, r#in: Option<u16> });
rstruct!(S834 { pos2: u16, pos0: u16, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S835 { pub(crate) c: u16, pub(crate) a: Dynamic<u8, Bytes>, pub(crate) b: u8 }
rstruct!(@refl S835 { c: u16, a: Dynamic<u8, Bytes>, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S836 { pub buf: u16, pub p: Dynamic<u8, Bytes>, pub f: u16 }
rstruct!(@refl S836 { buf: u16, p: Dynamic<u8, Bytes>, f: u16 });
rstruct!(S837 { z9: u16, z10: Dynamic<u8, Bytes>, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S838 { pub(crate) r#fn: u16, pub(crate) r#type: Dynamic<u8, Bytes>, pub(crate) r#in: Option<u16> }
rstruct!(@refl S838 { r#fn: u16, r#type: Dynamic<u8, Bytes>, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S839 { pub pos2: u16, pub pos0: Dynamic<u8, Bytes>, pub pos1: Bytes }
rstruct!(@refl S839 { pos2: u16, pos0: Dynamic<u8, Bytes>, pos1: Bytes });
rstruct!(S840 { c: u16, a: Option<u16>, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S841 { buf: u16, p: Option<u16>, f: u16 }
rstruct!(@refl S841 { buf: u16, p: Option<u16>, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S842 { pub(crate) z9: u16, pub(crate) z10: Option<u16>, pub(crate) z1: Dynamic<u8, Bytes> }
rstruct!(@refl S842 { z9: u16, z10: Option<u16>, z1: Dynamic<u8, Bytes> });
rstruct!(S843 { r#fn: u16, r#type: Option<u16>, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S844 { pos2: u16, pos0: Option<u16>, pos1: Bytes }
rstruct!(@refl S844 { pos2: u16, pos0: Option<u16>, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S845 { pub(crate) c: u16, pub(crate) a: Bytes, pub(crate) b: u8 }
rstruct!(@refl S845 { c: u16, a: Bytes, b: u8 });
rstruct!(S846 { buf: u16, p: Bytes, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S847 { pub z9: u16, pub z10: Bytes, pub z1: Dynamic<u8, Bytes> }
rstruct!(@refl S847 { z9: u16, z10: Bytes, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S848 { r#fn: u16, r#type: Bytes, r#in: Option<u16> }
rstruct!(@refl S848 { r#fn: u16, r#type: Bytes, r#in: Option<u16> });
rstruct!(S849 { pos2: u16, pos0: Bytes, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S850 { pub c: Dynamic<u8, Bytes>, pub a: u8, pub b: u8 }
rstruct!(@refl S850 { c: Dynamic<u8, Bytes>, a: u8, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S851 { buf: Dynamic<u8, Bytes>, p: u8, f: u16 }
rstruct!(@refl S851 { buf: Dynamic<u8, Bytes>, p: u8, f: u16 });
rstruct!(S852 { z9: Dynamic<u8, Bytes>, z10: u8, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S853 { pub r#fn: Dynamic<u8, Bytes>, pub r#type: u8, pub r#in: Option<u16> }
rstruct!(@refl S853 { r#fn: Dynamic<u8, Bytes>, r#type: u8, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S854 { pub pos2: Dynamic<u8, Bytes>, pub pos0: u8, pub pos1: Bytes }
rstruct!(@refl S854 { pos2: Dynamic<u8, Bytes>, pos0: u8, pos1: Bytes });
rstruct!(S855 { c: Dynamic<u8, Bytes>, a: u16, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S856 { pub(crate) buf: Dynamic<u8, Bytes>, pub(crate) p: u16, pub(crate) f: u16 }
rstruct!(@refl S856 { buf: Dynamic<u8, Bytes>, p: u16, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S857 { pub z9: Dynamic<u8, Bytes>, pub z10: u16, pub z1: Dynamic<u8, Bytes> }
rstruct!(@refl S857 { z9: Dynamic<u8, Bytes>, z10: u16, z1: Dynamic<u8, Bytes> });
rstruct!(S858 { r#fn: Dynamic<u8, Bytes>, r#type: u16, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S859 { pub(crate) pos2: Dynamic<u8, Bytes>, pub(crate) pos0: u16, pub(crate) pos1: Bytes }
rstruct!(@refl S859 { pos2: Dynamic<u8, Bytes>, pos0: u16, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S860 { pub c: Dynamic<u8, Bytes>, pub a: Dynamic<u8, Bytes>, pub b: u8 }
rstruct!(@refl S860 { c: Dynamic<u8, Bytes>, a: Dynamic<u8, Bytes>, b: u8 });
rstruct!(S861 { buf: Dynamic<u8, Bytes>, p: Dynamic<u8, Bytes>, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S862 { z9: Dynamic<u8, Bytes>, z10: Dynamic<u8, Bytes>, z1: Dynamic<u8, Bytes> }
rstruct!(@refl S862 { z9: Dynamic<u8, Bytes>, z10: Dynamic<u8, Bytes>, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S863 { pub(crate) r#fn: Dynamic<u8, Bytes>, pub(crate) r#type: Dynamic<u8, Bytes>, pub(crate) r#in: Option<u16> }
rstruct!(@refl S863 { r#fn: Dynamic<u8, Bytes>, r#type: Dynamic<u8, Bytes>, r#in: Option<u16> });
rstruct!(S864 { pos2: Dynamic<u8, Bytes>, pos0: Dynamic<u8, Bytes>, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S865 { c: Dynamic<u8, Bytes>, a: Option<u16>, b: u8 }
rstruct!(@refl S865 { c: Dynamic<u8, Bytes>, a: Option<u16>, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S866 { pub(crate) buf: Dynamic<u8, Bytes>, pub(crate) p: Option<u16>, pub(crate) f: u16 }
rstruct!(@refl S866 { buf: Dynamic<u8, Bytes>, p: Option<u16>, f: u16 });
rstruct!(S867 { z9: Dynamic<u8, Bytes>, z10: Option<u16>, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S868 { pub r#fn: Dynamic<u8, Bytes>, pub r#type: Option<u16>, pub r#in: Option<u16> }
rstruct!(@refl S868 { r#fn: Dynamic<u8, Bytes>, r#type: Option<u16>, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S869 { pos2: Dynamic<u8, Bytes>, pos0: Option<u16>, pos1: Bytes }
rstruct!(@refl S869 { pos2: Dynamic<u8, Bytes>, pos0: Option<u16>, pos1: Bytes });
rstruct!(S870 { c: Dynamic<u8, Bytes>, a: Bytes, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S871 { pub buf: Dynamic<u8, Bytes>, pub p: Bytes, pub f: u16 }
rstruct!(@refl S871 { buf: Dynamic<u8, Bytes>, p: Bytes, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S872 { z9: Dynamic<u8, Bytes>, z10: Bytes, z1: Dynamic<u8, Bytes> }
rstruct!(@refl S872 { z9: Dynamic<u8, Bytes>, z10: Bytes, z1: Dynamic<u8, Bytes> });
rstruct!(S873 { r#fn: Dynamic<u8, Bytes>, r#type: Bytes, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S874 { pub pos2: Dynamic<u8, Bytes>, pub pos0: Bytes, pub pos1: Bytes }
rstruct!(@refl S874 { pos2: Dynamic<u8, Bytes>, pos0: Bytes, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S875 { pub c: Option<u16>, pub a: u8, pub b: u8 }
rstruct!(@refl S875 { c: Option<u16>, a: u8, b: u8 });
rstruct!(S876 { buf: Option<u16>, p: u8, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S877 { pub(crate) z9: Option<u16>, pub(crate) z10: u8, pub(crate) z1: Dynamic<u8, Bytes> }
rstruct!(@refl S877 { z9: Option<u16>, z10: u8, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S878 { pub r#fn: Option<u16>, pub r#type: u8, pub r#in: Option<u16> }
rstruct!(@refl S878 { r#fn: Option<u16>, r#type: u8, r#in: Option<u16> });
rstruct!(S879 { pos2: Option<u16>, pos0: u8, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S880 { pub(crate) c: Option<u16>, pub(crate) a: u16, pub(crate) b: u8 }
rstruct!(@refl S880 { c: Option<u16>, a: u16, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S881 { pub buf: Option<u16>, pub p: u16, pub f: u16 }
rstruct!(@refl S881 { buf: Option<u16>, p: u16, f: u16 });
rstruct!(S882 { z9: Option<u16>, z10: u16, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S883 { r#fn: Option<u16>, r#type: u16, r#in: Option<u16> }
rstruct!(@refl S883 { r#fn: Option<u16>, r#type: u16, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S884 { pub(crate) pos2: Option<u16>, pub(crate) pos0: u16, pub(crate) pos1: Bytes }
rstruct!(@refl S884 { pos2: Option<u16>, pos0: u16, pos1: Bytes });
rstruct!(S885 { c: Option<u16>, a: Dynamic<u8, Bytes>, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S886 { buf: Option<u16>, p: Dynamic<u8, Bytes>, f: u16 }
rstruct!(@refl S886 { buf: Option<u16>, p: Dynamic<u8, Bytes>, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S887 { pub(crate) z9: Option<u16>, pub(crate) z10: Dynamic<u8, Bytes>, pub(crate) z1: Dynamic<u8, Bytes> }
rstruct!(@refl S887 { z9: Option<u16>, z10: Dynamic<u8, Bytes>, z1: Dynamic<u8, Bytes> });
rstruct!(S888 { r#fn: Option<u16>, r#type: Dynamic<u8, Bytes>, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S889 { pub pos2: Option<u16>, pub pos0: Dynamic<u8, Bytes>, pub pos1: Bytes }
rstruct!(@refl S889 { pos2: Option<u16>, pos0: Dynamic<u8, Bytes>, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S890 { c: Option<u16>, a: Option<u16>, b: u8 }
rstruct!(@refl S890 { c: Option<u16>, a: Option<u16>, b: u8 });
rstruct!(S891 { buf: Option<u16>, p: Option<u16>, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S892 { pub z9: Option<u16>, pub z10: Option<u16>, pub z1: Dynamic<u8, Bytes> }
rstruct!(@refl S892 { z9: Option<u16>, z10: Option<u16>, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S893 { r#fn: Option<u16>, r#type: Option<u16>, r#in: Option<u16> }
rstruct!(@refl S893 { r#fn: Option<u16>, r#type: Option<u16>, r#in: Option<u16> });
rstruct!(S894 { pos2: Option<u16>, pos0: Option<u16>, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S895 { pub c: Option<u16>, pub a: Bytes, pub b: u8 }
rstruct!(@refl S895 { c: Option<u16>, a: Bytes, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S896 { pub buf: Option<u16>, pub p: Bytes, pub f: u16 }
rstruct!(@refl S896 { buf: Option<u16>, p: Bytes, f: u16 });
rstruct!(S897 { z9: Option<u16>, z10: Bytes, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S898 { pub(crate) r#fn: Option<u16>, pub(crate) r#type: Bytes, pub(crate) r#in: Option<u16> }
rstruct!(@refl S898 { r#fn: Option<u16>, r#type: Bytes, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S899 { pub pos2: Option<u16>, pub pos0: Bytes, pub pos1: Bytes }
rstruct!(@refl S899 { pos2: Option<u16>, pos0: Bytes, pos1: Bytes });
rstruct!(S900 { c: Bytes, a: u8, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S901 { pub(crate) buf: Bytes, pub(crate) p: u8, pub(crate) f: u16 }
rstruct!(@refl S901 { buf: Bytes, p: u8, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S902 { pub z9: Bytes, pub z10: u8, pub z1: Dynamic<u8, Bytes> }
rstruct!(@refl S902 { z9: Bytes, z10: u8, z1: Dynamic<u8, Bytes> });
rstruct!(S903 { r#fn: Bytes, r#type: u8, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S904 { pos2: Bytes, pos0: u8, pos1: Bytes }
rstruct!(@refl S904 { pos2: Bytes, pos0: u8, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S905 { pub(crate) c: Bytes, pub(crate) a: u16, pub(crate) b: u8 }
rstruct!(@refl S905 { c: Bytes, a: u16, b: u8 });
rstruct!(S906 { buf: Bytes, p: u16, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S907 { z9: Bytes, z10: u16, z1: Dynamic<u8, Bytes> }
rstruct!(@refl S907 { z9: Bytes, z10: u16, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S908 { pub(crate) r#fn: Bytes, pub(crate) r#type: u16, pub(crate) r#in: Option<u16> }
rstruct!(@refl S908 { r#fn: Bytes, r#type: u16, r#in: Option<u16> });
rstruct!(S909 { pos2: Bytes, pos0: u16, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S910 { pub c: Bytes, pub a: Dynamic<u8, Bytes>, pub b: u8 }
rstruct!(@refl S910 { c: Bytes, a: Dynamic<u8, Bytes>, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S911 { buf: Bytes, p: Dynamic<u8, Bytes>, f: u16 }
rstruct!(@refl S911 { buf: Bytes, p: Dynamic<u8, Bytes>, f: u16 });
rstruct!(S912 { z9: Bytes, z10: Dynamic<u8, Bytes>, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S913 { pub r#fn: Bytes, pub r#type: Dynamic<u8, Bytes>, pub r#in: Option<u16> }
rstruct!(@refl S913 { r#fn: Bytes, r#type: Dynamic<u8, Bytes>, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S914 { pos2: Bytes, pos0: Dynamic<u8, Bytes>, pos1: Bytes }
rstruct!(@refl S914 { pos2: Bytes, pos0: Dynamic<u8, Bytes>, pos1: Bytes });
rstruct!(S915 { c: Bytes, a: Option<u16>, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S916 { pub buf: Bytes, pub p: Option<u16>, pub f: u16 }
rstruct!(@refl S916 { buf: Bytes, p: Option<u16>, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S917 { pub z9: Bytes, pub z10: Option<u16>, pub z1: Dynamic<u8, Bytes> }
rstruct!(@refl S917 { z9: Bytes, z10: Option<u16>, z1: Dynamic<u8, Bytes> });
rstruct!(S918 { r#fn: Bytes, r#type: Option<u16>, r#in: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S919 { pub(crate) pos2: Bytes, pub(crate) pos0: Option<u16>, pub(crate) pos1: Bytes }
rstruct!(@refl S919 { pos2: Bytes, pos0: Option<u16>, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S920 { pub c: Bytes, pub a: Bytes, pub b: u8 }
rstruct!(@refl S920 { c: Bytes, a: Bytes, b: u8 });
rstruct!(S921 { buf: Bytes, p: Bytes, f: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S922 { pub(crate) z9: Bytes, pub(crate) z10: Bytes, pub(crate) z1: Dynamic<u8, Bytes> }
rstruct!(@refl S922 { z9: Bytes, z10: Bytes, z1: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S923 { pub r#fn: Bytes, pub r#type: Bytes, pub r#in: Option<u16> }
rstruct!(@refl S923 { r#fn: Bytes, r#type: Bytes, r#in: Option<u16> });
rstruct!(S924 { pos2: Bytes, pos0: Bytes, pos1: Bytes });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S925 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8 }
rstruct!(@refl S925 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S926 { pub(crate) z0: i32, pub(crate) y1: Z, pub(crate) x2: U8, pub(crate) w3: RangedInt<u8, 10, 20> }
rstruct!(@refl S926 { z0: i32, y1: Z, x2: U8, w3: RangedInt<u8, 10, 20> });
rstruct!(S927 { f3x0: P2, f10x1: Option<u16>, f17x2: Z, f24x3: Nullable<u8> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S928 { z0: u8, y1: u8, x2: u8, w3: u8, v4: u8 }
rstruct!(@refl S928 { z0: u8, y1: u8, x2: u8, w3: u8, v4: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S929 { pub(crate) f3x0: RangedInt<u8, 10, 20>, pub(crate) f10x1: (), pub(crate) f17x2: FixedBytes<3>, pub(crate) f24x3: bool, pub(crate) f2x4: i32 }
rstruct!(@refl S929 { f3x0: RangedInt<u8, 10, 20>, f10x1: (), f17x2: FixedBytes<3>, f24x3: bool, f2x4: i32 });
rstruct!(S930 { z0: P2, y1: Dynamic<u8, Bytes>, x2: FixedBytes<3>, w3: FixedBytes<3>, v4: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S931 { pub f3x0: u8, pub f10x1: u8, pub f17x2: u8, pub f24x3: u8, pub f2x4: u8, pub f9x5: u8 }
rstruct!(@refl S931 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8, f2x4: u8, f9x5: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S932 { z0: N, y1: Dynamic<u8, Bytes>, x2: i32, w3: u16, v4: N, u5: () }
rstruct!(@refl S932 { z0: N, y1: Dynamic<u8, Bytes>, x2: i32, w3: u16, v4: N, u5: () });
rstruct!(S933 { f3x0: (), f10x1: N, f17x2: Dynamic<u8, Bytes>, f24x3: FixedBytes<3>, f2x4: P2, f9x5: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S934 { pub z0: u8, pub y1: u8, pub x2: u8, pub w3: u8, pub v4: u8, pub u5: u8, pub t6: u8 }
rstruct!(@refl S934 { z0: u8, y1: u8, x2: u8, w3: u8, v4: u8, u5: u8, t6: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S935 { f3x0: Dynamic<u8, Bytes>, f10x1: RangedInt<u8, 10, 20>, f17x2: Z, f24x3: P2, f2x4: u8, f9x5: (), f16x6: Dynamic<u8, Bytes> }
rstruct!(@refl S935 { f3x0: Dynamic<u8, Bytes>, f10x1: RangedInt<u8, 10, 20>, f17x2: Z, f24x3: P2, f2x4: u8, f9x5: (), f16x6: Dynamic<u8, Bytes> });
rstruct!(S936 { z0: (), y1: Option<u16>, x2: P2, w3: (), v4: (), u5: u8, t6: Option<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S937 { pub f3x0: u8, pub f10x1: u8, pub f17x2: u8, pub f24x3: u8, pub f2x4: u8, pub f9x5: u8, pub f16x6: u8, pub f23x7: u8 }
rstruct!(@refl S937 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8, f2x4: u8, f9x5: u8, f16x6: u8, f23x7: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S938 { pub z0: U8, pub y1: Z, pub x2: i32, pub w3: RangedInt<u8, 10, 20>, pub v4: u16, pub u5: RangedInt<u8, 10, 20>, pub t6: P2, pub s7: Sequence<u16> }
rstruct!(@refl S938 { z0: U8, y1: Z, x2: i32, w3: RangedInt<u8, 10, 20>, v4: u16, u5: RangedInt<u8, 10, 20>, t6: P2, s7: Sequence<u16> });
rstruct!(S939 { f3x0: Z, f10x1: FixedBytes<3>, f17x2: u8, f24x3: u16, f2x4: FixedBytes<3>, f9x5: bool, f16x6: Option<u16>, f23x7: P2 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S940 { pub(crate) z0: u8, pub(crate) y1: u8, pub(crate) x2: u8, pub(crate) w3: u8, pub(crate) v4: u8, pub(crate) u5: u8, pub(crate) t6: u8, pub(crate) s7: u8, pub(crate) r8: u8 }
rstruct!(@refl S940 { z0: u8, y1: u8, x2: u8, w3: u8, v4: u8, u5: u8, t6: u8, s7: u8, r8: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S941 { pub f3x0: U8, pub f10x1: Z, pub f17x2: N, pub f24x3: i32, pub f2x4: Z, pub f9x5: Dynamic<u8, Bytes>, pub f16x6: u16, pub f23x7: FixedBytes<3>, pub f1x8: bool }
rstruct!(@refl S941 { f3x0: U8, f10x1: Z, f17x2: N, f24x3: i32, f2x4: Z, f9x5: Dynamic<u8, Bytes>, f16x6: u16, f23x7: FixedBytes<3>, f1x8: bool });
rstruct!(S942 { z0: u8, y1: Dynamic<u8, Bytes>, x2: i32, w3: RangedInt<u8, 10, 20>, v4: Dynamic<u8, Bytes>, u5: U8, t6: Option<u16>, s7: N, r8: P2 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S943 { pub(crate) f3x0: u8, pub(crate) f10x1: u8, pub(crate) f17x2: u8, pub(crate) f24x3: u8, pub(crate) f2x4: u8, pub(crate) f9x5: u8, pub(crate) f16x6: u8, pub(crate) f23x7: u8, pub(crate) f1x8: u8, pub(crate) f8x9: u8 }
rstruct!(@refl S943 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8, f2x4: u8, f9x5: u8, f16x6: u8, f23x7: u8, f1x8: u8, f8x9: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S944 { pub z0: bool, pub y1: P2, pub x2: FixedBytes<3>, pub w3: (), pub v4: u8, pub u5: RangedInt<u8, 10, 20>, pub t6: u16, pub s7: Z, pub r8: Z, pub q9: Z }
rstruct!(@refl S944 { z0: bool, y1: P2, x2: FixedBytes<3>, w3: (), v4: u8, u5: RangedInt<u8, 10, 20>, t6: u16, s7: Z, r8: Z, q9: Z });
rstruct!(S945 { f3x0: bool, f10x1: P2, f17x2: N, f24x3: RangedInt<u8, 10, 20>, f2x4: P2, f9x5: u16, f16x6: N, f23x7: Dynamic<u8, Bytes>, f1x8: bool, f8x9: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S946 { z0: u8, y1: u8, x2: u8, w3: u8, v4: u8, u5: u8, t6: u8, s7: u8, r8: u8, q9: u8, p10: u8 }
rstruct!(@refl S946 { z0: u8, y1: u8, x2: u8, w3: u8, v4: u8, u5: u8, t6: u8, s7: u8, r8: u8, q9: u8, p10: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S947 { pub(crate) f3x0: u16, pub(crate) f10x1: i32, pub(crate) f17x2: Z, pub(crate) f24x3: i32, pub(crate) f2x4: Z, pub(crate) f9x5: RangedInt<u8, 10, 20>, pub(crate) f16x6: Option<u16>, pub(crate) f23x7: Z, pub(crate) f1x8: N, pub(crate) f8x9: bool, pub(crate) f15x10: N }
rstruct!(@refl S947 { f3x0: u16, f10x1: i32, f17x2: Z, f24x3: i32, f2x4: Z, f9x5: RangedInt<u8, 10, 20>, f16x6: Option<u16>, f23x7: Z, f1x8: N, f8x9: bool, f15x10: N });
rstruct!(S948 { z0: (), y1: i32, x2: u8, w3: Option<u16>, v4: U8, u5: Option<u16>, t6: Z, s7: RangedInt<u8, 10, 20>, r8: N, q9: P2, p10: Nullable<u8> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S949 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8, f2x4: u8, f9x5: u8, f16x6: u8, f23x7: u8, f1x8: u8, f8x9: u8, f15x10: u8, f22x11: u8 }
rstruct!(@refl S949 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8, f2x4: u8, f9x5: u8, f16x6: u8, f23x7: u8, f1x8: u8, f8x9: u8, f15x10: u8, f22x11: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S950 { pub(crate) z0: i32, pub(crate) y1: (), pub(crate) x2: P2, pub(crate) w3: (), pub(crate) v4: Z, pub(crate) u5: u16, pub(crate) t6: P2, pub(crate) s7: (), pub(crate) r8: u8, pub(crate) q9: u8, pub(crate) p10: (), pub(crate) o11: Z }
rstruct!(@refl S950 { z0: i32, y1: (), x2: P2, w3: (), v4: Z, u5: u16, t6: P2, s7: (), r8: u8, q9: u8, p10: (), o11: Z });
rstruct!(S951 { f3x0: RangedInt<u8, 10, 20>, f10x1: Z, f17x2: Option<u16>, f24x3: Z, f2x4: FixedBytes<3>, f9x5: u8, f16x6: U8, f23x7: Dynamic<u8, Bytes>, f1x8: u8, f8x9: u16, f15x10: U8, f22x11: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S952 { pub z0: u8, pub y1: u8, pub x2: u8, pub w3: u8, pub v4: u8, pub u5: u8, pub t6: u8, pub s7: u8, pub r8: u8, pub q9: u8, pub p10: u8, pub o11: u8, pub n12: u8, pub m13: u8, pub l14: u8, pub k15: u8 }
rstruct!(@refl S952 { z0: u8, y1: u8, x2: u8, w3: u8, v4: u8, u5: u8, t6: u8, s7: u8, r8: u8, q9: u8, p10: u8, o11: u8, n12: u8, m13: u8, l14: u8, k15: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S953 { f3x0: FixedBytes<3>, f10x1: Z, f17x2: u16, f24x3: i32, f2x4: U8, f9x5: Dynamic<u8, Bytes>, f16x6: Z, f23x7: bool, f1x8: i32, f8x9: Z, f15x10: Option<u16>, f22x11: Dynamic<u8, Bytes>, f0x12: RangedInt<u8, 10, 20>, f7x13: u16, f14x14: u16, f21x15: Z }
rstruct!(@refl S953 { f3x0: FixedBytes<3>, f10x1: Z, f17x2: u16, f24x3: i32, f2x4: U8, f9x5: Dynamic<u8, Bytes>, f16x6: Z, f23x7: bool, f1x8: i32, f8x9: Z, f15x10: Option<u16>, f22x11: Dynamic<u8, Bytes>, f0x12: RangedInt<u8, 10, 20>, f7x13: u16, f14x14: u16, f21x15: Z });
rstruct!(S954 { z0: FixedBytes<3>, y1: i32, x2: Dynamic<u8, Bytes>, w3: U8, v4: FixedBytes<3>, u5: N, t6: u16, s7: P2, r8: Z, q9: P2, p10: bool, o11: RangedInt<u8, 10, 20>, n12: Option<u16>, m13: (), l14: bool, k15: Sequence<u16> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S955 { pub f3x0: u8, pub f10x1: u8, pub f17x2: u8, pub f24x3: u8, pub f2x4: u8, pub f9x5: u8, pub f16x6: u8, pub f23x7: u8, pub f1x8: u8, pub f8x9: u8, pub f15x10: u8, pub f22x11: u8, pub f0x12: u8, pub f7x13: u8, pub f14x14: u8, pub f21x15: u8, pub f28x16: u8 }
rstruct!(@refl S955 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8, f2x4: u8, f9x5: u8, f16x6: u8, f23x7: u8, f1x8: u8, f8x9: u8, f15x10: u8, f22x11: u8, f0x12: u8, f7x13: u8, f14x14: u8, f21x15: u8, f28x16: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S956 { z0: u16, y1: RangedInt<u8, 10, 20>, x2: FixedBytes<3>, w3: U8, v4: FixedBytes<3>, u5: N, t6: RangedInt<u8, 10, 20>, s7: FixedBytes<3>, r8: u16, q9: RangedInt<u8, 10, 20>, p10: P2, o11: (), n12: u16, m13: Dynamic<u8, Bytes>, l14: N, k15: Dynamic<u8, Bytes>, j16: RangedInt<u8, 10, 20> }
rstruct!(@refl S956 { z0: u16, y1: RangedInt<u8, 10, 20>, x2: FixedBytes<3>, w3: U8, v4: FixedBytes<3>, u5: N, t6: RangedInt<u8, 10, 20>, s7: FixedBytes<3>, r8: u16, q9: RangedInt<u8, 10, 20>, p10: P2, o11: (), n12: u16, m13: Dynamic<u8, Bytes>, l14: N, k15: Dynamic<u8, Bytes>, j16: RangedInt<u8, 10, 20> });
rstruct!(S957 { f3x0: N, f10x1: P2, f17x2: P2, f24x3: i32, f2x4: Z, f9x5: u8, f16x6: U8, f23x7: Dynamic<u8, Bytes>, f1x8: bool, f8x9: Dynamic<u8, Bytes>, f15x10: N, f22x11: P2, f0x12: U8, f7x13: P2, f14x14: FixedBytes<3>, f21x15: U8, f28x16: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S958 { pub z0: u8, pub y1: u8, pub x2: u8, pub w3: u8, pub v4: u8, pub u5: u8, pub t6: u8, pub s7: u8, pub r8: u8, pub q9: u8, pub p10: u8, pub o11: u8, pub n12: u8, pub m13: u8, pub l14: u8, pub k15: u8, pub j16: u8, pub i17: u8, pub h18: u8, pub g19: u8, pub f20: u8, pub e21: u8, pub d22: u8, pub c23: u8 }
rstruct!(@refl S958 { z0: u8, y1: u8, x2: u8, w3: u8, v4: u8, u5: u8, t6: u8, s7: u8, r8: u8, q9: u8, p10: u8, o11: u8, n12: u8, m13: u8, l14: u8, k15: u8, j16: u8, i17: u8, h18: u8, g19: u8, f20: u8, e21: u8, d22: u8, c23: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S959 { pub f3x0: RangedInt<u8, 10, 20>, pub f10x1: u16, pub f17x2: FixedBytes<3>, pub f24x3: Dynamic<u8, Bytes>, pub f2x4: Dynamic<u8, Bytes>, pub f9x5: i32, pub f16x6: i32, pub f23x7: P2, pub f1x8: Dynamic<u8, Bytes>, pub f8x9: u8, pub f15x10: FixedBytes<3>, pub f22x11: i32, pub f0x12: bool, pub f7x13: P2, pub f14x14: FixedBytes<3>, pub f21x15: bool, pub f28x16: bool, pub f6x17: (), pub f13x18: u8, pub f20x19: FixedBytes<3>, pub f27x20: U8, pub f5x21: Z, pub f12x22: (), pub f19x23: Sequence<u16> }
rstruct!(@refl S959 { f3x0: RangedInt<u8, 10, 20>, f10x1: u16, f17x2: FixedBytes<3>, f24x3: Dynamic<u8, Bytes>, f2x4: Dynamic<u8, Bytes>, f9x5: i32, f16x6: i32, f23x7: P2, f1x8: Dynamic<u8, Bytes>, f8x9: u8, f15x10: FixedBytes<3>, f22x11: i32, f0x12: bool, f7x13: P2, f14x14: FixedBytes<3>, f21x15: bool, f28x16: bool, f6x17: (), f13x18: u8, f20x19: FixedBytes<3>, f27x20: U8, f5x21: Z, f12x22: (), f19x23: Sequence<u16> });
rstruct!(S960 { z0: bool, y1: RangedInt<u8, 10, 20>, x2: u16, w3: U8, v4: Z, u5: P2, t6: N, s7: RangedInt<u8, 10, 20>, r8: i32, q9: RangedInt<u8, 10, 20>, p10: P2, o11: (), n12: N, m13: (), l14: Dynamic<u8, Bytes>, k15: Dynamic<u8, Bytes>, j16: u16, i17: RangedInt<u8, 10, 20>, h18: Z, g19: Option<u16>, f20: P2, e21: U8, d22: u16, c23: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S961 { pub(crate) f3x0: u8, pub(crate) f10x1: u8, pub(crate) f17x2: u8, pub(crate) f24x3: u8, pub(crate) f2x4: u8, pub(crate) f9x5: u8, pub(crate) f16x6: u8, pub(crate) f23x7: u8, pub(crate) f1x8: u8, pub(crate) f8x9: u8, pub(crate) f15x10: u8, pub(crate) f22x11: u8, pub(crate) f0x12: u8, pub(crate) f7x13: u8, pub(crate) f14x14: u8, pub(crate) f21x15: u8, pub(crate) f28x16: u8, pub(crate) f6x17: u8, pub(crate) f13x18: u8, pub(crate) f20x19: u8, pub(crate) f27x20: u8, pub(crate) f5x21: u8, pub(crate) f12x22: u8, pub(crate) f19x23: u8, pub(crate) f26x24: u8, pub(crate) f4x25: u8, pub(crate) f11x26: u8, pub(crate) f18x27: u8, pub(crate) f25x28: u8, pub(crate) f3x29: u8, pub(crate) f10x30: u8, pub(crate) f17x31: u8, pub(crate) f24x32: u8 }
rstruct!(@refl S961 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8, f2x4: u8, f9x5: u8, f16x6: u8, f23x7: u8, f1x8: u8, f8x9: u8, f15x10: u8, f22x11: u8, f0x12: u8, f7x13: u8, f14x14: u8, f21x15: u8, f28x16: u8, f6x17: u8, f13x18: u8, f20x19: u8, f27x20: u8, f5x21: u8, f12x22: u8, f19x23: u8, f26x24: u8, f4x25: u8, f11x26: u8, f18x27: u8, f25x28: u8, f3x29: u8, f10x30: u8, f17x31: u8, f24x32: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S962 { pub z0: (), pub y1: RangedInt<u8, 10, 20>, pub x2: FixedBytes<3>, pub w3: Option<u16>, pub v4: Dynamic<u8, Bytes>, pub u5: (), pub t6: i32, pub s7: (), pub r8: Dynamic<u8, Bytes>, pub q9: i32, pub p10: Option<u16>, pub o11: N, pub n12: bool, pub m13: u16, pub l14: P2, pub k15: i32, pub j16: (), pub i17: (), pub h18: u8, pub g19: i32, pub f20: RangedInt<u8, 10, 20>, pub e21: Z, pub d22: Option<u16>, pub c23: u8, pub b24: Z, pub a25: N, pub z26: (), pub y27: Dynamic<u8, Bytes>, pub x28: P2, pub w29: (), pub v30: u16, pub u31: Option<u16>, pub t32: bool }
rstruct!(@refl S962 { z0: (), y1: RangedInt<u8, 10, 20>, x2: FixedBytes<3>, w3: Option<u16>, v4: Dynamic<u8, Bytes>, u5: (), t6: i32, s7: (), r8: Dynamic<u8, Bytes>, q9: i32, p10: Option<u16>, o11: N, n12: bool, m13: u16, l14: P2, k15: i32, j16: (), i17: (), h18: u8, g19: i32, f20: RangedInt<u8, 10, 20>, e21: Z, d22: Option<u16>, c23: u8, b24: Z, a25: N, z26: (), y27: Dynamic<u8, Bytes>, x28: P2, w29: (), v30: u16, u31: Option<u16>, t32: bool });
rstruct!(S963 { f3x0: i32, f10x1: Option<u16>, f17x2: U8, f24x3: N, f2x4: u16, f9x5: RangedInt<u8, 10, 20>, f16x6: FixedBytes<3>, f23x7: Z, f1x8: Dynamic<u8, Bytes>, f8x9: Option<u16>, f15x10: N, f22x11: N, f0x12: u16, f7x13: Dynamic<u8, Bytes>, f14x14: P2, f21x15: (), f28x16: i32, f6x17: u16, f13x18: RangedInt<u8, 10, 20>, f20x19: i32, f27x20: N, f5x21: Dynamic<u8, Bytes>, f12x22: (), f19x23: Dynamic<u8, Bytes>, f26x24: Option<u16>, f4x25: U8, f11x26: Option<u16>, f18x27: Dynamic<u8, Bytes>, f25x28: bool, f3x29: Z, f10x30: Z, f17x31: RangedInt<u8, 10, 20>, f24x32: Dynamic<u8, Bytes> });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S964 {  }
rstruct!(@refl S964 {  });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S965 { pub unknown: u8 }
rstruct!(@refl S965 { unknown: u8 });
fstruct!(S966 { x: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S967 { buf: i32 }
rstruct!(@refl S967 { buf: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S968 { pub(crate) p: bool }
rstruct!(@refl S968 { p: bool });
fstruct!(S969 { f: () });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S970 { r#type: FixedBytes<3> }
rstruct!(@refl S970 { r#type: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S971 { pub(crate) len: RangedInt<u8, 10, 20> }
rstruct!(@refl S971 { len: RangedInt<u8, 10, 20> });
fstruct!(S972 { _b: u8, _a: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S973 { pub b: u8, pub a: u16 }
rstruct!(@refl S973 { b: u8, a: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S974 { p: u8, buf: i32 }
rstruct!(@refl S974 { p: u8, buf: i32 });
fstruct!(S975 { r#type: u8, f: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S976 { pub zz: u8, pub Aa: () }
rstruct!(@refl S976 { zz: u8, Aa: () });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S977 { pos1: u8, pos0: FixedBytes<3> }
rstruct!(@refl S977 { pos1: u8, pos0: FixedBytes<3> });
fstruct!(S978 { write_to: u8, parse: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S979 { pub _b: u16, pub _a: u8 }
rstruct!(@refl S979 { _b: u16, _a: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S980 { pub b: u16, pub a: u16 }
rstruct!(@refl S980 { b: u16, a: u16 });
fstruct!(S981 { p: u16, buf: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S982 { pub(crate) r#type: u16, pub(crate) f: bool }
rstruct!(@refl S982 { r#type: u16, f: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S983 { pub zz: u16, pub Aa: () }
rstruct!(@refl S983 { zz: u16, Aa: () });
fstruct!(S984 { pos1: u16, pos0: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S985 { pub(crate) write_to: u16, pub(crate) parse: RangedInt<u8, 10, 20> }
rstruct!(@refl S985 { write_to: u16, parse: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S986 { pub _b: i32, pub _a: u8 }
rstruct!(@refl S986 { _b: i32, _a: u8 });
fstruct!(S987 { b: i32, a: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S988 { p: i32, buf: i32 }
rstruct!(@refl S988 { p: i32, buf: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S989 { pub(crate) r#type: i32, pub(crate) f: bool }
rstruct!(@refl S989 { r#type: i32, f: bool });
fstruct!(S990 { zz: i32, Aa: () });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S991 { pos1: i32, pos0: FixedBytes<3> }
rstruct!(@refl S991 { pos1: i32, pos0: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S992 { pub(crate) write_to: i32, pub(crate) parse: RangedInt<u8, 10, 20> }
rstruct!(@refl S992 { write_to: i32, parse: RangedInt<u8, 10, 20> });
fstruct!(S993 { _b: bool, _a: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S994 { pub b: bool, pub a: u16 }
rstruct!(@refl S994 { b: bool, a: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S995 { p: bool, buf: i32 }
rstruct!(@refl S995 { p: bool, buf: i32 });
fstruct!(S996 { r#type: bool, f: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S997 { pub zz: bool, pub Aa: () }
rstruct!(@refl S997 { zz: bool, Aa: () });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S998 { pos1: bool, pos0: FixedBytes<3> }
rstruct!(@refl S998 { pos1: bool, pos0: FixedBytes<3> });
fstruct!(S999 { write_to: bool, parse: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1000 { pub _b: (), pub _a: u8 }
rstruct!(@refl S1000 { _b: (), _a: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1001 { pub b: (), pub a: u16 }
rstruct!(@refl S1001 { b: (), a: u16 });
fstruct!(S1002 { p: (), buf: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1003 { pub(crate) r#type: (), pub(crate) f: bool }
rstruct!(@refl S1003 { r#type: (), f: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1004 { pub zz: (), pub Aa: () }
rstruct!(@refl S1004 { zz: (), Aa: () });
fstruct!(S1005 { pos1: (), pos0: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1006 { pub(crate) write_to: (), pub(crate) parse: RangedInt<u8, 10, 20> }
rstruct!(@refl S1006 { write_to: (), parse: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1007 { pub _b: FixedBytes<3>, pub _a: u8 }
rstruct!(@refl S1007 { _b: FixedBytes<3>, _a: u8 });
fstruct!(S1008 { b: FixedBytes<3>, a: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1009 { p: FixedBytes<3>, buf: i32 }
rstruct!(@refl S1009 { p: FixedBytes<3>, buf: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1010 { pub(crate) r#type: FixedBytes<3>, pub(crate) f: bool }
rstruct!(@refl S1010 { r#type: FixedBytes<3>, f: bool });
fstruct!(S1011 { zz: FixedBytes<3>, Aa: () });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1012 { pos1: FixedBytes<3>, pos0: FixedBytes<3> }
rstruct!(@refl S1012 { pos1: FixedBytes<3>, pos0: FixedBytes<3> });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1013 { pub(crate) write_to: FixedBytes<3>, pub(crate) parse: RangedInt<u8, 10, 20> }
rstruct!(@refl S1013 { write_to: FixedBytes<3>, parse: RangedInt<u8, 10, 20> });
fstruct!(S1014 { _b: RangedInt<u8, 10, 20>, _a: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1015 { pub b: RangedInt<u8, 10, 20>, pub a: u16 }
rstruct!(@refl S1015 { b: RangedInt<u8, 10, 20>, a: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1016 { p: RangedInt<u8, 10, 20>, buf: i32 }
rstruct!(@refl S1016 { p: RangedInt<u8, 10, 20>, buf: i32 });
fstruct!(S1017 { r#type: RangedInt<u8, 10, 20>, f: bool });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1018 { pub zz: RangedInt<u8, 10, 20>, pub Aa: () }
rstruct!(@refl S1018 { zz: RangedInt<u8, 10, 20>, Aa: () });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1019 { pos1: RangedInt<u8, 10, 20>, pos0: FixedBytes<3> }
rstruct!(@refl S1019 { pos1: RangedInt<u8, 10, 20>, pos0: FixedBytes<3> });
fstruct!(S1020 { write_to: RangedInt<u8, 10, 20>, parse: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1021 { pub buf: u8, pub p: u8, pub f: u8 }
rstruct!(@refl S1021 { buf: u8, p: u8, f: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1022 { pub z9: u8, pub z10: u8, pub z1: u16 }
rstruct!(@refl S1022 { z9: u8, z10: u8, z1: u16 });
fstruct!(S1023 { r#fn: u8, r#type: u8, r#in: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1024 { pub(crate) pos2: u8, pub(crate) pos0: u16, pub(crate) pos1: u8 }
rstruct!(@refl S1024 { pos2: u8, pos0: u16, pos1: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1025 { pub c: u8, pub a: u16, pub b: u16 }
rstruct!(@refl S1025 { c: u8, a: u16, b: u16 });
fstruct!(S1026 { buf: u8, p: u16, f: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1027 { pub(crate) z9: u8, pub(crate) z10: i32, pub(crate) z1: u8 }
rstruct!(@refl S1027 { z9: u8, z10: i32, z1: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1028 { pub r#fn: u8, pub r#type: i32, pub r#in: u16 }
rstruct!(@refl S1028 { r#fn: u8, r#type: i32, r#in: u16 });
fstruct!(S1029 { pos2: u8, pos0: i32, pos1: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1030 { c: u16, a: u8, b: u8 }
rstruct!(@refl S1030 { c: u16, a: u8, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1031 { pub(crate) buf: u16, pub(crate) p: u8, pub(crate) f: u16 }
rstruct!(@refl S1031 { buf: u16, p: u8, f: u16 });
fstruct!(S1032 { z9: u16, z10: u8, z1: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1033 { r#fn: u16, r#type: u16, r#in: u8 }
rstruct!(@refl S1033 { r#fn: u16, r#type: u16, r#in: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1034 { pub(crate) pos2: u16, pub(crate) pos0: u16, pub(crate) pos1: u16 }
rstruct!(@refl S1034 { pos2: u16, pos0: u16, pos1: u16 });
fstruct!(S1035 { c: u16, a: u16, b: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1036 { pub buf: u16, pub p: i32, pub f: u8 }
rstruct!(@refl S1036 { buf: u16, p: i32, f: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1037 { z9: u16, z10: i32, z1: u16 }
rstruct!(@refl S1037 { z9: u16, z10: i32, z1: u16 });
fstruct!(S1038 { r#fn: u16, r#type: i32, r#in: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1039 { pub pos2: i32, pub pos0: u8, pub pos1: u8 }
rstruct!(@refl S1039 { pos2: i32, pos0: u8, pos1: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1040 { c: i32, a: u8, b: u16 }
rstruct!(@refl S1040 { c: i32, a: u8, b: u16 });
fstruct!(S1041 { buf: i32, p: u8, f: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1042 { pub z9: i32, pub z10: u16, pub z1: u8 }
rstruct!(@refl S1042 { z9: i32, z10: u16, z1: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1043 { pub r#fn: i32, pub r#type: u16, pub r#in: u16 }
rstruct!(@refl S1043 { r#fn: i32, r#type: u16, r#in: u16 });
fstruct!(S1044 { pos2: i32, pos0: u16, pos1: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1045 { pub(crate) c: i32, pub(crate) a: i32, pub(crate) b: u8 }
rstruct!(@refl S1045 { c: i32, a: i32, b: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1046 { pub buf: i32, pub p: i32, pub f: u16 }
rstruct!(@refl S1046 { buf: i32, p: i32, f: u16 });
fstruct!(S1047 { z9: i32, z10: i32, z1: i32 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1048 { pub(crate) z0: (), pub(crate) y1: u8, pub(crate) x2: bool, pub(crate) w3: RangedInt<u8, 10, 20> }
rstruct!(@refl S1048 { z0: (), y1: u8, x2: bool, w3: RangedInt<u8, 10, 20> });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1049 { pub f3x0: FixedBytes<3>, pub f10x1: u16, pub f17x2: (), pub f24x3: u8, pub f2x4: bool }
rstruct!(@refl S1049 { f3x0: FixedBytes<3>, f10x1: u16, f17x2: (), f24x3: u8, f2x4: bool });
fstruct!(S1050 { z0: u8, y1: bool, x2: RangedInt<u8, 10, 20>, w3: i32, v4: FixedBytes<3>, u5: u16, t6: () });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1051 { f3x0: u16, f10x1: (), f17x2: u8, f24x3: bool, f2x4: RangedInt<u8, 10, 20>, f9x5: i32, f16x6: FixedBytes<3>, f23x7: u16 }
rstruct!(@refl S1051 { f3x0: u16, f10x1: (), f17x2: u8, f24x3: bool, f2x4: RangedInt<u8, 10, 20>, f9x5: i32, f16x6: FixedBytes<3>, f23x7: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Clone, Debug)] pub struct S1052 { pub(crate) z0: FixedBytes<3>, pub(crate) y1: u16, pub(crate) x2: (), pub(crate) w3: u8, pub(crate) v4: bool, pub(crate) u5: RangedInt<u8, 10, 20>, pub(crate) t6: i32, pub(crate) s7: FixedBytes<3>, pub(crate) r8: u16, pub(crate) q9: (), pub(crate) p10: u8, pub(crate) o11: bool }
rstruct!(@refl S1052 { z0: FixedBytes<3>, y1: u16, x2: (), w3: u8, v4: bool, u5: RangedInt<u8, 10, 20>, t6: i32, s7: FixedBytes<3>, r8: u16, q9: (), p10: u8, o11: bool });
rstruct!(S1053 { self_: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1054 { zz1: Option<u16>, self_: u8 }
rstruct!(@refl S1054 { zz1: Option<u16>, self_: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1055 { pub(crate) buf: u8, pub(crate) zz1: Dynamic<u8, Bytes>, pub(crate) aa1: u16 }
rstruct!(@refl S1055 { buf: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
rstruct!(S1056 { zz1: Option<u16>, buf: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1057 { pub p: u8, pub zz1: Dynamic<u8, Bytes>, pub aa1: u16 }
rstruct!(@refl S1057 { p: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1058 { zz1: Option<u16>, p: u8 }
rstruct!(@refl S1058 { zz1: Option<u16>, p: u8 });
rstruct!(S1059 { U: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1060 { pub zz1: Option<u16>, pub U: u8 }
rstruct!(@refl S1060 { zz1: Option<u16>, U: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1061 { P: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }
rstruct!(@refl S1061 { P: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
rstruct!(S1062 { zz1: Option<u16>, P: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1063 { pub some: u8, pub zz1: Dynamic<u8, Bytes>, pub aa1: u16 }
rstruct!(@refl S1063 { some: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1064 { pub zz1: Option<u16>, pub some: u8 }
rstruct!(@refl S1064 { zz1: Option<u16>, some: u8 });
rstruct!(S1065 { none: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1066 { pub(crate) zz1: Option<u16>, pub(crate) none: u8 }
rstruct!(@refl S1066 { zz1: Option<u16>, none: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1067 { pub KNOWN: u8, pub zz1: Dynamic<u8, Bytes>, pub aa1: u16 }
rstruct!(@refl S1067 { KNOWN: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
rstruct!(S1068 { zz1: Option<u16>, KNOWN: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1069 { pub(crate) LEN: u8, pub(crate) zz1: Dynamic<u8, Bytes>, pub(crate) aa1: u16 }
rstruct!(@refl S1069 { LEN: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1070 { pub zz1: Option<u16>, pub LEN: u8 }
rstruct!(@refl S1070 { zz1: Option<u16>, LEN: u8 });
rstruct!(S1071 { usize: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1072 { zz1: Option<u16>, usize: u8 }
rstruct!(@refl S1072 { zz1: Option<u16>, usize: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1073 { pub(crate) n: u8, pub(crate) zz1: Dynamic<u8, Bytes>, pub(crate) aa1: u16 }
rstruct!(@refl S1073 { n: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
rstruct!(S1074 { zz1: Option<u16>, n: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1075 { r#struct: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }
rstruct!(@refl S1075 { r#struct: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1076 { pub(crate) zz1: Option<u16>, pub(crate) r#struct: u8 }
rstruct!(@refl S1076 { zz1: Option<u16>, r#struct: u8 });
rstruct!(S1077 { r#match: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1078 { pub zz1: Option<u16>, pub r#match: u8 }
rstruct!(@refl S1078 { zz1: Option<u16>, r#match: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1079 { tedium: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }
rstruct!(@refl S1079 { tedium: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
rstruct!(S1080 { zz1: Option<u16>, tedium: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1081 { pub Self_: u8, pub zz1: Dynamic<u8, Bytes>, pub aa1: u16 }
rstruct!(@refl S1081 { Self_: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1082 { zz1: Option<u16>, Self_: u8 }
rstruct!(@refl S1082 { zz1: Option<u16>, Self_: u8 });
rstruct!(S1083 { a1: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1084 { pub zz1: Option<u16>, pub a1: u8 }
rstruct!(@refl S1084 { zz1: Option<u16>, a1: u8 });
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Clone, Debug)] pub struct S1085 { pub _0: u8, pub zz1: Dynamic<u8, Bytes>, pub aa1: u16 }
rstruct!(@refl S1085 { _0: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 });
rstruct!(S1086 { zz1: Option<u16>, _0: u8 });
pub fn all(v: &mut Vec<Section>, tier: Tier) {
    derived::<S1>(v, tier, 0, "tuple S1 ()");
    derived::<S2>(v, tier, 1, "tuple S2 (a0: u8)");
    derived::<S3>(v, tier, 1, "tuple S3 (a0: u16)");
    derived::<S4>(v, tier, 1, "tuple S4 (a0: i32)");
    derived::<S5>(v, tier, 1, "tuple S5 (a0: bool)");
    derived::<S6>(v, tier, 1, "tuple S6 (a0: ())");
    derived::<S7>(v, tier, 1, "tuple S7 (a0: FixedBytes<3>)");
    derived::<S8>(v, tier, 1, "tuple S8 (a0: RangedInt<u8, 10, 20>)");
    derived::<S9>(v, tier, 1, "tuple S9 (a0: Dynamic<u8, Bytes>)");
    derived::<S10>(v, tier, 1, "tuple S10 (a0: Option<u16>)");
    derived::<S11>(v, tier, 1, "tuple S11 (a0: N)");
    derived::<S12>(v, tier, 1, "tuple S12 (a0: Z)");
    derived::<S13>(v, tier, 1, "tuple S13 (a0: Bytes)");
    derived::<S14>(v, tier, 1, "tuple S14 (a0: Sequence<u16>)");
    derived::<S15>(v, tier, 1, "tuple S15 (a0: Nullable<u8>)");
    derived::<S16>(v, tier, 1, "tuple S16 (a0: P2)");
    derived::<S17>(v, tier, 1, "tuple S17 (a0: U8)");
    derived::<S18>(v, tier, 2, "tuple S18 (a0: u8, a1: u8)");
    derived::<S19>(v, tier, 2, "tuple S19 (a0: u8, a1: u16)");
    derived::<S20>(v, tier, 2, "tuple S20 (a0: u8, a1: i32)");
    derived::<S21>(v, tier, 2, "tuple S21 (a0: u8, a1: bool)");
    derived::<S22>(v, tier, 2, "tuple S22 (a0: u8, a1: ())");
    derived::<S23>(v, tier, 2, "tuple S23 (a0: u8, a1: FixedBytes<3>)");
    derived::<S24>(v, tier, 2, "tuple S24 (a0: u8, a1: RangedInt<u8, 10, 20>)");
    derived::<S25>(v, tier, 2, "tuple S25 (a0: u8, a1: Dynamic<u8, Bytes>)");
    derived::<S26>(v, tier, 2, "tuple S26 (a0: u8, a1: Option<u16>)");
    derived::<S27>(v, tier, 2, "tuple S27 (a0: u8, a1: N)");
    derived::<S28>(v, tier, 2, "tuple S28 (a0: u8, a1: Z)");
    derived::<S29>(v, tier, 2, "tuple S29 (a0: u8, a1: Bytes)");
    derived::<S30>(v, tier, 2, "tuple S30 (a0: u8, a1: Sequence<u16>)");
    derived::<S31>(v, tier, 2, "tuple S31 (a0: u8, a1: Nullable<u8>)");
    derived::<S32>(v, tier, 2, "tuple S32 (a0: u8, a1: P2)");
    derived::<S33>(v, tier, 2, "tuple S33 (a0: u8, a1: U8)");
    derived::<S34>(v, tier, 2, "tuple S34 (a0: u16, a1: u8)");
    derived::<S35>(v, tier, 2, "tuple S35 (a0: u16, a1: u16)");
    derived::<S36>(v, tier, 2, "tuple S36 (a0: u16, a1: i32)");
    derived::<S37>(v, tier, 2, "tuple S37 (a0: u16, a1: bool)");
    derived::<S38>(v, tier, 2, "tuple S38 (a0: u16, a1: ())");
    derived::<S39>(v, tier, 2, "tuple S39 (a0: u16, a1: FixedBytes<3>)");
    derived::<S40>(v, tier, 2, "tuple S40 (a0: u16, a1: RangedInt<u8, 10, 20>)");
    derived::<S41>(v, tier, 2, "tuple S41 (a0: u16, a1: Dynamic<u8, Bytes>)");
    derived::<S42>(v, tier, 2, "tuple S42 (a0: u16, a1: Option<u16>)");
    derived::<S43>(v, tier, 2, "tuple S43 (a0: u16, a1: N)");
    derived::<S44>(v, tier, 2, "tuple S44 (a0: u16, a1: Z)");
    derived::<S45>(v, tier, 2, "tuple S45 (a0: u16, a1: Bytes)");
    derived::<S46>(v, tier, 2, "tuple S46 (a0: u16, a1: Sequence<u16>)");
    derived::<S47>(v, tier, 2, "tuple S47 (a0: u16, a1: Nullable<u8>)");
    derived::<S48>(v, tier, 2, "tuple S48 (a0: u16, a1: P2)");
    derived::<S49>(v, tier, 2, "tuple S49 (a0: u16, a1: U8)");
    derived::<S50>(v, tier, 2, "tuple S50 (a0: i32, a1: u8)");
    derived::<S51>(v, tier, 2, "tuple S51 (a0: i32, a1: u16)");
    derived::<S52>(v, tier, 2, "tuple S52 (a0: i32, a1: i32)");
    derived::<S53>(v, tier, 2, "tuple S53 (a0: i32, a1: bool)");
    derived::<S54>(v, tier, 2, "tuple S54 (a0: i32, a1: ())");
    derived::<S55>(v, tier, 2, "tuple S55 (a0: i32, a1: FixedBytes<3>)");
    derived::<S56>(v, tier, 2, "tuple S56 (a0: i32, a1: RangedInt<u8, 10, 20>)");
    derived::<S57>(v, tier, 2, "tuple S57 (a0: i32, a1: Dynamic<u8, Bytes>)");
    derived::<S58>(v, tier, 2, "tuple S58 (a0: i32, a1: Option<u16>)");
    derived::<S59>(v, tier, 2, "tuple S59 (a0: i32, a1: N)");
    derived::<S60>(v, tier, 2, "tuple S60 (a0: i32, a1: Z)");
    derived::<S61>(v, tier, 2, "tuple S61 (a0: i32, a1: Bytes)");
    derived::<S62>(v, tier, 2, "tuple S62 (a0: i32, a1: Sequence<u16>)");
    derived::<S63>(v, tier, 2, "tuple S63 (a0: i32, a1: Nullable<u8>)");
    derived::<S64>(v, tier, 2, "tuple S64 (a0: i32, a1: P2)");
    derived::<S65>(v, tier, 2, "tuple S65 (a0: i32, a1: U8)");
    derived::<S66>(v, tier, 2, "tuple S66 (a0: bool, a1: u8)");
    derived::<S67>(v, tier, 2, "tuple S67 (a0: bool, a1: u16)");
    derived::<S68>(v, tier, 2, "tuple S68 (a0: bool, a1: i32)");
    derived::<S69>(v, tier, 2, "tuple S69 (a0: bool, a1: bool)");
    derived::<S70>(v, tier, 2, "tuple S70 (a0: bool, a1: ())");
    derived::<S71>(v, tier, 2, "tuple S71 (a0: bool, a1: FixedBytes<3>)");
    derived::<S72>(v, tier, 2, "tuple S72 (a0: bool, a1: RangedInt<u8, 10, 20>)");
    derived::<S73>(v, tier, 2, "tuple S73 (a0: bool, a1: Dynamic<u8, Bytes>)");
    derived::<S74>(v, tier, 2, "tuple S74 (a0: bool, a1: Option<u16>)");
    derived::<S75>(v, tier, 2, "tuple S75 (a0: bool, a1: N)");
    derived::<S76>(v, tier, 2, "tuple S76 (a0: bool, a1: Z)");
    derived::<S77>(v, tier, 2, "tuple S77 (a0: bool, a1: Bytes)");
    derived::<S78>(v, tier, 2, "tuple S78 (a0: bool, a1: Sequence<u16>)");
    derived::<S79>(v, tier, 2, "tuple S79 (a0: bool, a1: Nullable<u8>)");
    derived::<S80>(v, tier, 2, "tuple S80 (a0: bool, a1: P2)");
    derived::<S81>(v, tier, 2, "tuple S81 (a0: bool, a1: U8)");
    derived::<S82>(v, tier, 2, "tuple S82 (a0: (), a1: u8)");
    derived::<S83>(v, tier, 2, "tuple S83 (a0: (), a1: u16)");
    derived::<S84>(v, tier, 2, "tuple S84 (a0: (), a1: i32)");
    derived::<S85>(v, tier, 2, "tuple S85 (a0: (), a1: bool)");
    derived::<S86>(v, tier, 2, "tuple S86 (a0: (), a1: ())");
    derived::<S87>(v, tier, 2, "tuple S87 (a0: (), a1: FixedBytes<3>)");
    derived::<S88>(v, tier, 2, "tuple S88 (a0: (), a1: RangedInt<u8, 10, 20>)");
    derived::<S89>(v, tier, 2, "tuple S89 (a0: (), a1: Dynamic<u8, Bytes>)");
    derived::<S90>(v, tier, 2, "tuple S90 (a0: (), a1: Option<u16>)");
    derived::<S91>(v, tier, 2, "tuple S91 (a0: (), a1: N)");
    derived::<S92>(v, tier, 2, "tuple S92 (a0: (), a1: Z)");
    derived::<S93>(v, tier, 2, "tuple S93 (a0: (), a1: Bytes)");
    derived::<S94>(v, tier, 2, "tuple S94 (a0: (), a1: Sequence<u16>)");
    derived::<S95>(v, tier, 2, "tuple S95 (a0: (), a1: Nullable<u8>)");
    derived::<S96>(v, tier, 2, "tuple S96 (a0: (), a1: P2)");
    derived::<S97>(v, tier, 2, "tuple S97 (a0: (), a1: U8)");
    derived::<S98>(v, tier, 2, "tuple S98 (a0: FixedBytes<3>, a1: u8)");
    derived::<S99>(v, tier, 2, "tuple S99 (a0: FixedBytes<3>, a1: u16)");
    derived::<S100>(v, tier, 2, "tuple S100 (a0: FixedBytes<3>, a1: i32)");
    derived::<S101>(v, tier, 2, "tuple S101 (a0: FixedBytes<3>, a1: bool)");
    derived::<S102>(v, tier, 2, "tuple S102 (a0: FixedBytes<3>, a1: ())");
    derived::<S103>(v, tier, 2, "tuple S103 (a0: FixedBytes<3>, a1: FixedBytes<3>)");
    derived::<S104>(v, tier, 2, "tuple S104 (a0: FixedBytes<3>, a1: RangedInt<u8, 10, 20>)");
    derived::<S105>(v, tier, 2, "tuple S105 (a0: FixedBytes<3>, a1: Dynamic<u8, Bytes>)");
    derived::<S106>(v, tier, 2, "tuple S106 (a0: FixedBytes<3>, a1: Option<u16>)");
    derived::<S107>(v, tier, 2, "tuple S107 (a0: FixedBytes<3>, a1: N)");
    derived::<S108>(v, tier, 2, "tuple S108 (a0: FixedBytes<3>, a1: Z)");
    derived::<S109>(v, tier, 2, "tuple S109 (a0: FixedBytes<3>, a1: Bytes)");
    derived::<S110>(v, tier, 2, "tuple S110 (a0: FixedBytes<3>, a1: Sequence<u16>)");
    derived::<S111>(v, tier, 2, "tuple S111 (a0: FixedBytes<3>, a1: Nullable<u8>)");
    derived::<S112>(v, tier, 2, "tuple S112 (a0: FixedBytes<3>, a1: P2)");
    derived::<S113>(v, tier, 2, "tuple S113 (a0: FixedBytes<3>, a1: U8)");
    derived::<S114>(v, tier, 2, "tuple S114 (a0: RangedInt<u8, 10, 20>, a1: u8)");
    derived::<S115>(v, tier, 2, "tuple S115 (a0: RangedInt<u8, 10, 20>, a1: u16)");
    derived::<S116>(v, tier, 2, "tuple S116 (a0: RangedInt<u8, 10, 20>, a1: i32)");
    derived::<S117>(v, tier, 2, "tuple S117 (a0: RangedInt<u8, 10, 20>, a1: bool)");
    derived::<S118>(v, tier, 2, "tuple S118 (a0: RangedInt<u8, 10, 20>, a1: ())");
    derived::<S119>(v, tier, 2, "tuple S119 (a0: RangedInt<u8, 10, 20>, a1: FixedBytes<3>)");
    derived::<S120>(v, tier, 2, "tuple S120 (a0: RangedInt<u8, 10, 20>, a1: RangedInt<u8, 10, 20>)");
    derived::<S121>(v, tier, 2, "tuple S121 (a0: RangedInt<u8, 10, 20>, a1: Dynamic<u8, Bytes>)");
    derived::<S122>(v, tier, 2, "tuple S122 (a0: RangedInt<u8, 10, 20>, a1: Option<u16>)");
    derived::<S123>(v, tier, 2, "tuple S123 (a0: RangedInt<u8, 10, 20>, a1: N)");
    derived::<S124>(v, tier, 2, "tuple S124 (a0: RangedInt<u8, 10, 20>, a1: Z)");
    derived::<S125>(v, tier, 2, "tuple S125 (a0: RangedInt<u8, 10, 20>, a1: Bytes)");
    derived::<S126>(v, tier, 2, "tuple S126 (a0: RangedInt<u8, 10, 20>, a1: Sequence<u16>)");
    derived::<S127>(v, tier, 2, "tuple S127 (a0: RangedInt<u8, 10, 20>, a1: Nullable<u8>)");
    derived::<S128>(v, tier, 2, "tuple S128 (a0: RangedInt<u8, 10, 20>, a1: P2)");
    derived::<S129>(v, tier, 2, "tuple S129 (a0: RangedInt<u8, 10, 20>, a1: U8)");
    derived::<S130>(v, tier, 2, "tuple S130 (a0: Dynamic<u8, Bytes>, a1: u8)");
    derived::<S131>(v, tier, 2, "tuple S131 (a0: Dynamic<u8, Bytes>, a1: u16)");
    derived::<S132>(v, tier, 2, "tuple S132 (a0: Dynamic<u8, Bytes>, a1: i32)");
    derived::<S133>(v, tier, 2, "tuple S133 (a0: Dynamic<u8, Bytes>, a1: bool)");
    derived::<S134>(v, tier, 2, "tuple S134 (a0: Dynamic<u8, Bytes>, a1: ())");
    derived::<S135>(v, tier, 2, "tuple S135 (a0: Dynamic<u8, Bytes>, a1: FixedBytes<3>)");
    derived::<S136>(v, tier, 2, "tuple S136 (a0: Dynamic<u8, Bytes>, a1: RangedInt<u8, 10, 20>)");
    derived::<S137>(v, tier, 2, "tuple S137 (a0: Dynamic<u8, Bytes>, a1: Dynamic<u8, Bytes>)");
    derived::<S138>(v, tier, 2, "tuple S138 (a0: Dynamic<u8, Bytes>, a1: Option<u16>)");
    derived::<S139>(v, tier, 2, "tuple S139 (a0: Dynamic<u8, Bytes>, a1: N)");
    derived::<S140>(v, tier, 2, "tuple S140 (a0: Dynamic<u8, Bytes>, a1: Z)");
    derived::<S141>(v, tier, 2, "tuple S141 (a0: Dynamic<u8, Bytes>, a1: Bytes)");
    derived::<S142>(v, tier, 2, "tuple S142 (a0: Dynamic<u8, Bytes>, a1: Sequence<u16>)");
    derived::<S143>(v, tier, 2, "tuple S143 (a0: Dynamic<u8, Bytes>, a1: Nullable<u8>)");
    derived::<S144>(v, tier, 2, "tuple S144 (a0: Dynamic<u8, Bytes>, a1: P2)");
    derived::<S145>(v, tier, 2, "tuple S145 (a0: Dynamic<u8, Bytes>, a1: U8)");
    derived::<S146>(v, tier, 2, "tuple S146 (a0: Option<u16>, a1: u8)");
    derived::<S147>(v, tier, 2, "tuple S147 (a0: Option<u16>, a1: u16)");
    derived::<S148>(v, tier, 2, "tuple S148 (a0: Option<u16>, a1: i32)");
    derived::<S149>(v, tier, 2, "tuple S149 (a0: Option<u16>, a1: bool)");
    derived::<S150>(v, tier, 2, "tuple S150 (a0: Option<u16>, a1: ())");
    derived::<S151>(v, tier, 2, "tuple S151 (a0: Option<u16>, a1: FixedBytes<3>)");
    derived::<S152>(v, tier, 2, "tuple S152 (a0: Option<u16>, a1: RangedInt<u8, 10, 20>)");
    derived::<S153>(v, tier, 2, "tuple S153 (a0: Option<u16>, a1: Dynamic<u8, Bytes>)");
    derived::<S154>(v, tier, 2, "tuple S154 (a0: Option<u16>, a1: Option<u16>)");
    derived::<S155>(v, tier, 2, "tuple S155 (a0: Option<u16>, a1: N)");
    derived::<S156>(v, tier, 2, "tuple S156 (a0: Option<u16>, a1: Z)");
    derived::<S157>(v, tier, 2, "tuple S157 (a0: Option<u16>, a1: Bytes)");
    derived::<S158>(v, tier, 2, "tuple S158 (a0: Option<u16>, a1: Sequence<u16>)");
    derived::<S159>(v, tier, 2, "tuple S159 (a0: Option<u16>, a1: Nullable<u8>)");
    derived::<S160>(v, tier, 2, "tuple S160 (a0: Option<u16>, a1: P2)");
    derived::<S161>(v, tier, 2, "tuple S161 (a0: Option<u16>, a1: U8)");
    derived::<S162>(v, tier, 2, "tuple S162 (a0: N, a1: u8)");
    derived::<S163>(v, tier, 2, "tuple S163 (a0: N, a1: u16)");
    derived::<S164>(v, tier, 2, "tuple S164 (a0: N, a1: i32)");
    derived::<S165>(v, tier, 2, "tuple S165 (a0: N, a1: bool)");
    derived::<S166>(v, tier, 2, "tuple S166 (a0: N, a1: ())");
    derived::<S167>(v, tier, 2, "tuple S167 (a0: N, a1: FixedBytes<3>)");
    derived::<S168>(v, tier, 2, "tuple S168 (a0: N, a1: RangedInt<u8, 10, 20>)");
    derived::<S169>(v, tier, 2, "tuple S169 (a0: N, a1: Dynamic<u8, Bytes>)");
    derived::<S170>(v, tier, 2, "tuple S170 (a0: N, a1: Option<u16>)");
    derived::<S171>(v, tier, 2, "tuple S171 (a0: N, a1: N)");
    derived::<S172>(v, tier, 2, "tuple S172 (a0: N, a1: Z)");
    derived::<S173>(v, tier, 2, "tuple S173 (a0: N, a1: Bytes)");
    derived::<S174>(v, tier, 2, "tuple S174 (a0: N, a1: Sequence<u16>)");
    derived::<S175>(v, tier, 2, "tuple S175 (a0: N, a1: Nullable<u8>)");
    derived::<S176>(v, tier, 2, "tuple S176 (a0: N, a1: P2)");
    derived::<S177>(v, tier, 2, "tuple S177 (a0: N, a1: U8)");
    derived::<S178>(v, tier, 2, "tuple S178 (a0: Z, a1: u8)");
    derived::<S179>(v, tier, 2, "tuple S179 (a0: Z, a1: u16)");
    derived::<S180>(v, tier, 2, "tuple S180 (a0: Z, a1: i32)");
    derived::<S181>(v, tier, 2, "tuple S181 (a0: Z, a1: bool)");
    derived::<S182>(v, tier, 2, "tuple S182 (a0: Z, a1: ())");
    derived::<S183>(v, tier, 2, "tuple S183 (a0: Z, a1: FixedBytes<3>)");
    derived::<S184>(v, tier, 2, "tuple S184 (a0: Z, a1: RangedInt<u8, 10, 20>)");
    derived::<S185>(v, tier, 2, "tuple S185 (a0: Z, a1: Dynamic<u8, Bytes>)");
    derived::<S186>(v, tier, 2, "tuple S186 (a0: Z, a1: Option<u16>)");
    derived::<S187>(v, tier, 2, "tuple S187 (a0: Z, a1: N)");
    derived::<S188>(v, tier, 2, "tuple S188 (a0: Z, a1: Z)");
    derived::<S189>(v, tier, 2, "tuple S189 (a0: Z, a1: Bytes)");
    derived::<S190>(v, tier, 2, "tuple S190 (a0: Z, a1: Sequence<u16>)");
    derived::<S191>(v, tier, 2, "tuple S191 (a0: Z, a1: Nullable<u8>)");
    derived::<S192>(v, tier, 2, "tuple S192 (a0: Z, a1: P2)");
    derived::<S193>(v, tier, 2, "tuple S193 (a0: Z, a1: U8)");
    derived::<S194>(v, tier, 2, "tuple S194 (a0: Bytes, a1: u8)");
    derived::<S195>(v, tier, 2, "tuple S195 (a0: Bytes, a1: u16)");
    derived::<S196>(v, tier, 2, "tuple S196 (a0: Bytes, a1: i32)");
    derived::<S197>(v, tier, 2, "tuple S197 (a0: Bytes, a1: bool)");
    derived::<S198>(v, tier, 2, "tuple S198 (a0: Bytes, a1: ())");
    derived::<S199>(v, tier, 2, "tuple S199 (a0: Bytes, a1: FixedBytes<3>)");
    derived::<S200>(v, tier, 2, "tuple S200 (a0: Bytes, a1: RangedInt<u8, 10, 20>)");
    derived::<S201>(v, tier, 2, "tuple S201 (a0: Bytes, a1: Dynamic<u8, Bytes>)");
    derived::<S202>(v, tier, 2, "tuple S202 (a0: Bytes, a1: Option<u16>)");
    derived::<S203>(v, tier, 2, "tuple S203 (a0: Bytes, a1: N)");
    derived::<S204>(v, tier, 2, "tuple S204 (a0: Bytes, a1: Z)");
    derived::<S205>(v, tier, 2, "tuple S205 (a0: Bytes, a1: Bytes)");
    derived::<S206>(v, tier, 2, "tuple S206 (a0: Bytes, a1: Sequence<u16>)");
    derived::<S207>(v, tier, 2, "tuple S207 (a0: Bytes, a1: Nullable<u8>)");
    derived::<S208>(v, tier, 2, "tuple S208 (a0: Bytes, a1: P2)");
    derived::<S209>(v, tier, 2, "tuple S209 (a0: Bytes, a1: U8)");
    derived::<S210>(v, tier, 2, "tuple S210 (a0: Sequence<u16>, a1: u8)");
    derived::<S211>(v, tier, 2, "tuple S211 (a0: Sequence<u16>, a1: u16)");
    derived::<S212>(v, tier, 2, "tuple S212 (a0: Sequence<u16>, a1: i32)");
    derived::<S213>(v, tier, 2, "tuple S213 (a0: Sequence<u16>, a1: bool)");
    derived::<S214>(v, tier, 2, "tuple S214 (a0: Sequence<u16>, a1: ())");
    derived::<S215>(v, tier, 2, "tuple S215 (a0: Sequence<u16>, a1: FixedBytes<3>)");
    derived::<S216>(v, tier, 2, "tuple S216 (a0: Sequence<u16>, a1: RangedInt<u8, 10, 20>)");
    derived::<S217>(v, tier, 2, "tuple S217 (a0: Sequence<u16>, a1: Dynamic<u8, Bytes>)");
    derived::<S218>(v, tier, 2, "tuple S218 (a0: Sequence<u16>, a1: Option<u16>)");
    derived::<S219>(v, tier, 2, "tuple S219 (a0: Sequence<u16>, a1: N)");
    derived::<S220>(v, tier, 2, "tuple S220 (a0: Sequence<u16>, a1: Z)");
    derived::<S221>(v, tier, 2, "tuple S221 (a0: Sequence<u16>, a1: Bytes)");
    derived::<S222>(v, tier, 2, "tuple S222 (a0: Sequence<u16>, a1: Sequence<u16>)");
    derived::<S223>(v, tier, 2, "tuple S223 (a0: Sequence<u16>, a1: Nullable<u8>)");
    derived::<S224>(v, tier, 2, "tuple S224 (a0: Sequence<u16>, a1: P2)");
    derived::<S225>(v, tier, 2, "tuple S225 (a0: Sequence<u16>, a1: U8)");
    derived::<S226>(v, tier, 2, "tuple S226 (a0: Nullable<u8>, a1: u8)");
    derived::<S227>(v, tier, 2, "tuple S227 (a0: Nullable<u8>, a1: u16)");
    derived::<S228>(v, tier, 2, "tuple S228 (a0: Nullable<u8>, a1: i32)");
    derived::<S229>(v, tier, 2, "tuple S229 (a0: Nullable<u8>, a1: bool)");
    derived::<S230>(v, tier, 2, "tuple S230 (a0: Nullable<u8>, a1: ())");
    derived::<S231>(v, tier, 2, "tuple S231 (a0: Nullable<u8>, a1: FixedBytes<3>)");
    derived::<S232>(v, tier, 2, "tuple S232 (a0: Nullable<u8>, a1: RangedInt<u8, 10, 20>)");
    derived::<S233>(v, tier, 2, "tuple S233 (a0: Nullable<u8>, a1: Dynamic<u8, Bytes>)");
    derived::<S234>(v, tier, 2, "tuple S234 (a0: Nullable<u8>, a1: Option<u16>)");
    derived::<S235>(v, tier, 2, "tuple S235 (a0: Nullable<u8>, a1: N)");
    derived::<S236>(v, tier, 2, "tuple S236 (a0: Nullable<u8>, a1: Z)");
    derived::<S237>(v, tier, 2, "tuple S237 (a0: Nullable<u8>, a1: Bytes)");
    derived::<S238>(v, tier, 2, "tuple S238 (a0: Nullable<u8>, a1: Sequence<u16>)");
    derived::<S239>(v, tier, 2, "tuple S239 (a0: Nullable<u8>, a1: Nullable<u8>)");
    derived::<S240>(v, tier, 2, "tuple S240 (a0: Nullable<u8>, a1: P2)");
    derived::<S241>(v, tier, 2, "tuple S241 (a0: Nullable<u8>, a1: U8)");
    derived::<S242>(v, tier, 2, "tuple S242 (a0: P2, a1: u8)");
    derived::<S243>(v, tier, 2, "tuple S243 (a0: P2, a1: u16)");
    derived::<S244>(v, tier, 2, "tuple S244 (a0: P2, a1: i32)");
    derived::<S245>(v, tier, 2, "tuple S245 (a0: P2, a1: bool)");
    derived::<S246>(v, tier, 2, "tuple S246 (a0: P2, a1: ())");
    derived::<S247>(v, tier, 2, "tuple S247 (a0: P2, a1: FixedBytes<3>)");
    derived::<S248>(v, tier, 2, "tuple S248 (a0: P2, a1: RangedInt<u8, 10, 20>)");
    derived::<S249>(v, tier, 2, "tuple S249 (a0: P2, a1: Dynamic<u8, Bytes>)");
    derived::<S250>(v, tier, 2, "tuple S250 (a0: P2, a1: Option<u16>)");
    derived::<S251>(v, tier, 2, "tuple S251 (a0: P2, a1: N)");
    derived::<S252>(v, tier, 2, "tuple S252 (a0: P2, a1: Z)");
    derived::<S253>(v, tier, 2, "tuple S253 (a0: P2, a1: Bytes)");
    derived::<S254>(v, tier, 2, "tuple S254 (a0: P2, a1: Sequence<u16>)");
    derived::<S255>(v, tier, 2, "tuple S255 (a0: P2, a1: Nullable<u8>)");
    derived::<S256>(v, tier, 2, "tuple S256 (a0: P2, a1: P2)");
    derived::<S257>(v, tier, 2, "tuple S257 (a0: P2, a1: U8)");
    derived::<S258>(v, tier, 2, "tuple S258 (a0: U8, a1: u8)");
    derived::<S259>(v, tier, 2, "tuple S259 (a0: U8, a1: u16)");
    derived::<S260>(v, tier, 2, "tuple S260 (a0: U8, a1: i32)");
    derived::<S261>(v, tier, 2, "tuple S261 (a0: U8, a1: bool)");
    derived::<S262>(v, tier, 2, "tuple S262 (a0: U8, a1: ())");
    derived::<S263>(v, tier, 2, "tuple S263 (a0: U8, a1: FixedBytes<3>)");
    derived::<S264>(v, tier, 2, "tuple S264 (a0: U8, a1: RangedInt<u8, 10, 20>)");
    derived::<S265>(v, tier, 2, "tuple S265 (a0: U8, a1: Dynamic<u8, Bytes>)");
    derived::<S266>(v, tier, 2, "tuple S266 (a0: U8, a1: Option<u16>)");
    derived::<S267>(v, tier, 2, "tuple S267 (a0: U8, a1: N)");
    derived::<S268>(v, tier, 2, "tuple S268 (a0: U8, a1: Z)");
    derived::<S269>(v, tier, 2, "tuple S269 (a0: U8, a1: Bytes)");
    derived::<S270>(v, tier, 2, "tuple S270 (a0: U8, a1: Sequence<u16>)");
    derived::<S271>(v, tier, 2, "tuple S271 (a0: U8, a1: Nullable<u8>)");
    derived::<S272>(v, tier, 2, "tuple S272 (a0: U8, a1: P2)");
    derived::<S273>(v, tier, 2, "tuple S273 (a0: U8, a1: U8)");
    derived::<S274>(v, tier, 3, "tuple S274 (a0: u8, a1: u8, a2: u8)");
    derived::<S275>(v, tier, 3, "tuple S275 (a0: u8, a1: u8, a2: u16)");
    derived::<S276>(v, tier, 3, "tuple S276 (a0: u8, a1: u8, a2: Dynamic<u8, Bytes>)");
    derived::<S277>(v, tier, 3, "tuple S277 (a0: u8, a1: u8, a2: Option<u16>)");
    derived::<S278>(v, tier, 3, "tuple S278 (a0: u8, a1: u8, a2: Bytes)");
    derived::<S279>(v, tier, 3, "tuple S279 (a0: u8, a1: u16, a2: u8)");
    derived::<S280>(v, tier, 3, "tuple S280 (a0: u8, a1: u16, a2: u16)");
    derived::<S281>(v, tier, 3, "tuple S281 (a0: u8, a1: u16, a2: Dynamic<u8, Bytes>)");
    derived::<S282>(v, tier, 3, "tuple S282 (a0: u8, a1: u16, a2: Option<u16>)");
    derived::<S283>(v, tier, 3, "tuple S283 (a0: u8, a1: u16, a2: Bytes)");
    derived::<S284>(v, tier, 3, "tuple S284 (a0: u8, a1: Dynamic<u8, Bytes>, a2: u8)");
    derived::<S285>(v, tier, 3, "tuple S285 (a0: u8, a1: Dynamic<u8, Bytes>, a2: u16)");
    derived::<S286>(v, tier, 3, "tuple S286 (a0: u8, a1: Dynamic<u8, Bytes>, a2: Dynamic<u8, Bytes>)");
    derived::<S287>(v, tier, 3, "tuple S287 (a0: u8, a1: Dynamic<u8, Bytes>, a2: Option<u16>)");
    derived::<S288>(v, tier, 3, "tuple S288 (a0: u8, a1: Dynamic<u8, Bytes>, a2: Bytes)");
    derived::<S289>(v, tier, 3, "tuple S289 (a0: u8, a1: Option<u16>, a2: u8)");
    derived::<S290>(v, tier, 3, "tuple S290 (a0: u8, a1: Option<u16>, a2: u16)");
    derived::<S291>(v, tier, 3, "tuple S291 (a0: u8, a1: Option<u16>, a2: Dynamic<u8, Bytes>)");
    derived::<S292>(v, tier, 3, "tuple S292 (a0: u8, a1: Option<u16>, a2: Option<u16>)");
    derived::<S293>(v, tier, 3, "tuple S293 (a0: u8, a1: Option<u16>, a2: Bytes)");
    derived::<S294>(v, tier, 3, "tuple S294 (a0: u8, a1: Bytes, a2: u8)");
    derived::<S295>(v, tier, 3, "tuple S295 (a0: u8, a1: Bytes, a2: u16)");
    derived::<S296>(v, tier, 3, "tuple S296 (a0: u8, a1: Bytes, a2: Dynamic<u8, Bytes>)");
    derived::<S297>(v, tier, 3, "tuple S297 (a0: u8, a1: Bytes, a2: Option<u16>)");
    derived::<S298>(v, tier, 3, "tuple S298 (a0: u8, a1: Bytes, a2: Bytes)");
    derived::<S299>(v, tier, 3, "tuple S299 (a0: u16, a1: u8, a2: u8)");
    derived::<S300>(v, tier, 3, "tuple S300 (a0: u16, a1: u8, a2: u16)");
    derived::<S301>(v, tier, 3, "tuple S301 (a0: u16, a1: u8, a2: Dynamic<u8, Bytes>)");
    derived::<S302>(v, tier, 3, "tuple S302 (a0: u16, a1: u8, a2: Option<u16>)");
    derived::<S303>(v, tier, 3, "tuple S303 (a0: u16, a1: u8, a2: Bytes)");
    derived::<S304>(v, tier, 3, "tuple S304 (a0: u16, a1: u16, a2: u8)");
    derived::<S305>(v, tier, 3, "tuple S305 (a0: u16, a1: u16, a2: u16)");
    derived::<S306>(v, tier, 3, "tuple S306 (a0: u16, a1: u16, a2: Dynamic<u8, Bytes>)");
    derived::<S307>(v, tier, 3, "tuple S307 (a0: u16, a1: u16, a2: Option<u16>)");
    derived::<S308>(v, tier, 3, "tuple S308 (a0: u16, a1: u16, a2: Bytes)");
    derived::<S309>(v, tier, 3, "tuple S309 (a0: u16, a1: Dynamic<u8, Bytes>, a2: u8)");
    derived::<S310>(v, tier, 3, "tuple S310 (a0: u16, a1: Dynamic<u8, Bytes>, a2: u16)");
    derived::<S311>(v, tier, 3, "tuple S311 (a0: u16, a1: Dynamic<u8, Bytes>, a2: Dynamic<u8, Bytes>)");
    derived::<S312>(v, tier, 3, "tuple S312 (a0: u16, a1: Dynamic<u8, Bytes>, a2: Option<u16>)");
    derived::<S313>(v, tier, 3, "tuple S313 (a0: u16, a1: Dynamic<u8, Bytes>, a2: Bytes)");
    derived::<S314>(v, tier, 3, "tuple S314 (a0: u16, a1: Option<u16>, a2: u8)");
    derived::<S315>(v, tier, 3, "tuple S315 (a0: u16, a1: Option<u16>, a2: u16)");
    derived::<S316>(v, tier, 3, "tuple S316 (a0: u16, a1: Option<u16>, a2: Dynamic<u8, Bytes>)");
    derived::<S317>(v, tier, 3, "tuple S317 (a0: u16, a1: Option<u16>, a2: Option<u16>)");
    derived::<S318>(v, tier, 3, "tuple S318 (a0: u16, a1: Option<u16>, a2: Bytes)");
    derived::<S319>(v, tier, 3, "tuple S319 (a0: u16, a1: Bytes, a2: u8)");
    derived::<S320>(v, tier, 3, "tuple S320 (a0: u16, a1: Bytes, a2: u16)");
    derived::<S321>(v, tier, 3, "tuple S321 (a0: u16, a1: Bytes, a2: Dynamic<u8, Bytes>)");
    derived::<S322>(v, tier, 3, "tuple S322 (a0: u16, a1: Bytes, a2: Option<u16>)");
    derived::<S323>(v, tier, 3, "tuple S323 (a0: u16, a1: Bytes, a2: Bytes)");
    derived::<S324>(v, tier, 3, "tuple S324 (a0: Dynamic<u8, Bytes>, a1: u8, a2: u8)");
    derived::<S325>(v, tier, 3, "tuple S325 (a0: Dynamic<u8, Bytes>, a1: u8, a2: u16)");
    derived::<S326>(v, tier, 3, "tuple S326 (a0: Dynamic<u8, Bytes>, a1: u8, a2: Dynamic<u8, Bytes>)");
    derived::<S327>(v, tier, 3, "tuple S327 (a0: Dynamic<u8, Bytes>, a1: u8, a2: Option<u16>)");
    derived::<S328>(v, tier, 3, "tuple S328 (a0: Dynamic<u8, Bytes>, a1: u8, a2: Bytes)");
    derived::<S329>(v, tier, 3, "tuple S329 (a0: Dynamic<u8, Bytes>, a1: u16, a2: u8)");
    derived::<S330>(v, tier, 3, "tuple S330 (a0: Dynamic<u8, Bytes>, a1: u16, a2: u16)");
    derived::<S331>(v, tier, 3, "tuple S331 (a0: Dynamic<u8, Bytes>, a1: u16, a2: Dynamic<u8, Bytes>)");
    derived::<S332>(v, tier, 3, "tuple S332 (a0: Dynamic<u8, Bytes>, a1: u16, a2: Option<u16>)");
    derived::<S333>(v, tier, 3, "tuple S333 (a0: Dynamic<u8, Bytes>, a1: u16, a2: Bytes)");
    derived::<S334>(v, tier, 3, "tuple S334 (a0: Dynamic<u8, Bytes>, a1: Dynamic<u8, Bytes>, a2: u8)");
    derived::<S335>(v, tier, 3, "tuple S335 (a0: Dynamic<u8, Bytes>, a1: Dynamic<u8, Bytes>, a2: u16)");
    derived::<S336>(v, tier, 3, "tuple S336 (a0: Dynamic<u8, Bytes>, a1: Dynamic<u8, Bytes>, a2: Dynamic<u8, Bytes>)");
    derived::<S337>(v, tier, 3, "tuple S337 (a0: Dynamic<u8, Bytes>, a1: Dynamic<u8, Bytes>, a2: Option<u16>)");
    derived::<S338>(v, tier, 3, "tuple S338 (a0: Dynamic<u8, Bytes>, a1: Dynamic<u8, Bytes>, a2: Bytes)");
    derived::<S339>(v, tier, 3, "tuple S339 (a0: Dynamic<u8, Bytes>, a1: Option<u16>, a2: u8)");
    derived::<S340>(v, tier, 3, "tuple S340 (a0: Dynamic<u8, Bytes>, a1: Option<u16>, a2: u16)");
    derived::<S341>(v, tier, 3, "tuple S341 (a0: Dynamic<u8, Bytes>, a1: Option<u16>, a2: Dynamic<u8, Bytes>)");
    derived::<S342>(v, tier, 3, "tuple S342 (a0: Dynamic<u8, Bytes>, a1: Option<u16>, a2: Option<u16>)");
    derived::<S343>(v, tier, 3, "tuple S343 (a0: Dynamic<u8, Bytes>, a1: Option<u16>, a2: Bytes)");
    derived::<S344>(v, tier, 3, "tuple S344 (a0: Dynamic<u8, Bytes>, a1: Bytes, a2: u8)");
    derived::<S345>(v, tier, 3, "tuple S345 (a0: Dynamic<u8, Bytes>, a1: Bytes, a2: u16)");
    derived::<S346>(v, tier, 3, "tuple S346 (a0: Dynamic<u8, Bytes>, a1: Bytes, a2: Dynamic<u8, Bytes>)");
    derived::<S347>(v, tier, 3, "tuple S347 (a0: Dynamic<u8, Bytes>, a1: Bytes, a2: Option<u16>)");
    derived::<S348>(v, tier, 3, "tuple S348 (a0: Dynamic<u8, Bytes>, a1: Bytes, a2: Bytes)");
    derived::<S349>(v, tier, 3, "tuple S349 (a0: Option<u16>, a1: u8, a2: u8)");
    derived::<S350>(v, tier, 3, "tuple S350 (a0: Option<u16>, a1: u8, a2: u16)");
    derived::<S351>(v, tier, 3, "tuple S351 (a0: Option<u16>, a1: u8, a2: Dynamic<u8, Bytes>)");
    derived::<S352>(v, tier, 3, "tuple S352 (a0: Option<u16>, a1: u8, a2: Option<u16>)");
    derived::<S353>(v, tier, 3, "tuple S353 (a0: Option<u16>, a1: u8, a2: Bytes)");
    derived::<S354>(v, tier, 3, "tuple S354 (a0: Option<u16>, a1: u16, a2: u8)");
    derived::<S355>(v, tier, 3, "tuple S355 (a0: Option<u16>, a1: u16, a2: u16)");
    derived::<S356>(v, tier, 3, "tuple S356 (a0: Option<u16>, a1: u16, a2: Dynamic<u8, Bytes>)");
    derived::<S357>(v, tier, 3, "tuple S357 (a0: Option<u16>, a1: u16, a2: Option<u16>)");
    derived::<S358>(v, tier, 3, "tuple S358 (a0: Option<u16>, a1: u16, a2: Bytes)");
    derived::<S359>(v, tier, 3, "tuple S359 (a0: Option<u16>, a1: Dynamic<u8, Bytes>, a2: u8)");
    derived::<S360>(v, tier, 3, "tuple S360 (a0: Option<u16>, a1: Dynamic<u8, Bytes>, a2: u16)");
    derived::<S361>(v, tier, 3, "tuple S361 (a0: Option<u16>, a1: Dynamic<u8, Bytes>, a2: Dynamic<u8, Bytes>)");
    derived::<S362>(v, tier, 3, "tuple S362 (a0: Option<u16>, a1: Dynamic<u8, Bytes>, a2: Option<u16>)");
    derived::<S363>(v, tier, 3, "tuple S363 (a0: Option<u16>, a1: Dynamic<u8, Bytes>, a2: Bytes)");
    derived::<S364>(v, tier, 3, "tuple S364 (a0: Option<u16>, a1: Option<u16>, a2: u8)");
    derived::<S365>(v, tier, 3, "tuple S365 (a0: Option<u16>, a1: Option<u16>, a2: u16)");
    derived::<S366>(v, tier, 3, "tuple S366 (a0: Option<u16>, a1: Option<u16>, a2: Dynamic<u8, Bytes>)");
    derived::<S367>(v, tier, 3, "tuple S367 (a0: Option<u16>, a1: Option<u16>, a2: Option<u16>)");
    derived::<S368>(v, tier, 3, "tuple S368 (a0: Option<u16>, a1: Option<u16>, a2: Bytes)");
    derived::<S369>(v, tier, 3, "tuple S369 (a0: Option<u16>, a1: Bytes, a2: u8)");
    derived::<S370>(v, tier, 3, "tuple S370 (a0: Option<u16>, a1: Bytes, a2: u16)");
    derived::<S371>(v, tier, 3, "tuple S371 (a0: Option<u16>, a1: Bytes, a2: Dynamic<u8, Bytes>)");
    derived::<S372>(v, tier, 3, "tuple S372 (a0: Option<u16>, a1: Bytes, a2: Option<u16>)");
    derived::<S373>(v, tier, 3, "tuple S373 (a0: Option<u16>, a1: Bytes, a2: Bytes)");
    derived::<S374>(v, tier, 3, "tuple S374 (a0: Bytes, a1: u8, a2: u8)");
    derived::<S375>(v, tier, 3, "tuple S375 (a0: Bytes, a1: u8, a2: u16)");
    derived::<S376>(v, tier, 3, "tuple S376 (a0: Bytes, a1: u8, a2: Dynamic<u8, Bytes>)");
    derived::<S377>(v, tier, 3, "tuple S377 (a0: Bytes, a1: u8, a2: Option<u16>)");
    derived::<S378>(v, tier, 3, "tuple S378 (a0: Bytes, a1: u8, a2: Bytes)");
    derived::<S379>(v, tier, 3, "tuple S379 (a0: Bytes, a1: u16, a2: u8)");
    derived::<S380>(v, tier, 3, "tuple S380 (a0: Bytes, a1: u16, a2: u16)");
    derived::<S381>(v, tier, 3, "tuple S381 (a0: Bytes, a1: u16, a2: Dynamic<u8, Bytes>)");
    derived::<S382>(v, tier, 3, "tuple S382 (a0: Bytes, a1: u16, a2: Option<u16>)");
    derived::<S383>(v, tier, 3, "tuple S383 (a0: Bytes, a1: u16, a2: Bytes)");
    derived::<S384>(v, tier, 3, "tuple S384 (a0: Bytes, a1: Dynamic<u8, Bytes>, a2: u8)");
    derived::<S385>(v, tier, 3, "tuple S385 (a0: Bytes, a1: Dynamic<u8, Bytes>, a2: u16)");
    derived::<S386>(v, tier, 3, "tuple S386 (a0: Bytes, a1: Dynamic<u8, Bytes>, a2: Dynamic<u8, Bytes>)");
    derived::<S387>(v, tier, 3, "tuple S387 (a0: Bytes, a1: Dynamic<u8, Bytes>, a2: Option<u16>)");
    derived::<S388>(v, tier, 3, "tuple S388 (a0: Bytes, a1: Dynamic<u8, Bytes>, a2: Bytes)");
    derived::<S389>(v, tier, 3, "tuple S389 (a0: Bytes, a1: Option<u16>, a2: u8)");
    derived::<S390>(v, tier, 3, "tuple S390 (a0: Bytes, a1: Option<u16>, a2: u16)");
    derived::<S391>(v, tier, 3, "tuple S391 (a0: Bytes, a1: Option<u16>, a2: Dynamic<u8, Bytes>)");
    derived::<S392>(v, tier, 3, "tuple S392 (a0: Bytes, a1: Option<u16>, a2: Option<u16>)");
    derived::<S393>(v, tier, 3, "tuple S393 (a0: Bytes, a1: Option<u16>, a2: Bytes)");
    derived::<S394>(v, tier, 3, "tuple S394 (a0: Bytes, a1: Bytes, a2: u8)");
    derived::<S395>(v, tier, 3, "tuple S395 (a0: Bytes, a1: Bytes, a2: u16)");
    derived::<S396>(v, tier, 3, "tuple S396 (a0: Bytes, a1: Bytes, a2: Dynamic<u8, Bytes>)");
    derived::<S397>(v, tier, 3, "tuple S397 (a0: Bytes, a1: Bytes, a2: Option<u16>)");
    derived::<S398>(v, tier, 3, "tuple S398 (a0: Bytes, a1: Bytes, a2: Bytes)");
    derived::<S399>(v, tier, 9, "tuple S399 (a0: u8, a1: u8, a2: u8, a3: u8)");
    derived::<S400>(v, tier, 9, "tuple S400 (a0: i32, a1: Z, a2: U8, a3: RangedInt<u8, 10, 20>)");
    derived::<S401>(v, tier, 9, "tuple S401 (a0: P2, a1: Option<u16>, a2: Z, a3: Nullable<u8>)");
    derived::<S402>(v, tier, 9, "tuple S402 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8)");
    derived::<S403>(v, tier, 9, "tuple S403 (a0: RangedInt<u8, 10, 20>, a1: (), a2: FixedBytes<3>, a3: bool, a4: i32)");
    derived::<S404>(v, tier, 9, "tuple S404 (a0: P2, a1: Dynamic<u8, Bytes>, a2: FixedBytes<3>, a3: FixedBytes<3>, a4: RangedInt<u8, 10, 20>)");
    derived::<S405>(v, tier, 9, "tuple S405 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8)");
    derived::<S406>(v, tier, 9, "tuple S406 (a0: N, a1: Dynamic<u8, Bytes>, a2: i32, a3: u16, a4: N, a5: ())");
    derived::<S407>(v, tier, 9, "tuple S407 (a0: (), a1: N, a2: Dynamic<u8, Bytes>, a3: FixedBytes<3>, a4: P2, a5: i32)");
    derived::<S408>(v, tier, 9, "tuple S408 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8)");
    derived::<S409>(v, tier, 9, "tuple S409 (a0: Dynamic<u8, Bytes>, a1: RangedInt<u8, 10, 20>, a2: Z, a3: P2, a4: u8, a5: (), a6: Dynamic<u8, Bytes>)");
    derived::<S410>(v, tier, 9, "tuple S410 (a0: (), a1: Option<u16>, a2: P2, a3: (), a4: (), a5: u8, a6: Option<u16>)");
    derived::<S411>(v, tier, 9, "tuple S411 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8)");
    derived::<S412>(v, tier, 9, "tuple S412 (a0: U8, a1: Z, a2: i32, a3: RangedInt<u8, 10, 20>, a4: u16, a5: RangedInt<u8, 10, 20>, a6: P2, a7: Sequence<u16>)");
    derived::<S413>(v, tier, 9, "tuple S413 (a0: Z, a1: FixedBytes<3>, a2: u8, a3: u16, a4: FixedBytes<3>, a5: bool, a6: Option<u16>, a7: P2)");
    derived::<S414>(v, tier, 9, "tuple S414 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8)");
    derived::<S415>(v, tier, 9, "tuple S415 (a0: U8, a1: Z, a2: N, a3: i32, a4: Z, a5: Dynamic<u8, Bytes>, a6: u16, a7: FixedBytes<3>, a8: bool)");
    derived::<S416>(v, tier, 9, "tuple S416 (a0: u8, a1: Dynamic<u8, Bytes>, a2: i32, a3: RangedInt<u8, 10, 20>, a4: Dynamic<u8, Bytes>, a5: U8, a6: Option<u16>, a7: N, a8: P2)");
    derived::<S417>(v, tier, 9, "tuple S417 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8)");
    derived::<S418>(v, tier, 9, "tuple S418 (a0: bool, a1: P2, a2: FixedBytes<3>, a3: (), a4: u8, a5: RangedInt<u8, 10, 20>, a6: u16, a7: Z, a8: Z, a9: Z)");
    derived::<S419>(v, tier, 9, "tuple S419 (a0: bool, a1: P2, a2: N, a3: RangedInt<u8, 10, 20>, a4: P2, a5: u16, a6: N, a7: Dynamic<u8, Bytes>, a8: bool, a9: FixedBytes<3>)");
    derived::<S420>(v, tier, 9, "tuple S420 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, a10: u8)");
    derived::<S421>(v, tier, 9, "tuple S421 (a0: u16, a1: i32, a2: Z, a3: i32, a4: Z, a5: RangedInt<u8, 10, 20>, a6: Option<u16>, a7: Z, a8: N, a9: bool, a10: N)");
    derived::<S422>(v, tier, 9, "tuple S422 (a0: (), a1: i32, a2: u8, a3: Option<u16>, a4: U8, a5: Option<u16>, a6: Z, a7: RangedInt<u8, 10, 20>, a8: N, a9: P2, a10: Nullable<u8>)");
    derived::<S423>(v, tier, 9, "tuple S423 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, a10: u8, a11: u8)");
    derived::<S424>(v, tier, 9, "tuple S424 (a0: i32, a1: (), a2: P2, a3: (), a4: Z, a5: u16, a6: P2, a7: (), a8: u8, a9: u8, a10: (), a11: Z)");
    derived::<S425>(v, tier, 9, "tuple S425 (a0: RangedInt<u8, 10, 20>, a1: Z, a2: Option<u16>, a3: Z, a4: FixedBytes<3>, a5: u8, a6: U8, a7: Dynamic<u8, Bytes>, a8: u8, a9: u16, a10: U8, a11: FixedBytes<3>)");
    derived::<S426>(v, tier, 9, "tuple S426 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, a10: u8, a11: u8, a12: u8, a13: u8, a14: u8, a15: u8)");
    derived::<S427>(v, tier, 9, "tuple S427 (a0: FixedBytes<3>, a1: Z, a2: u16, a3: i32, a4: U8, a5: Dynamic<u8, Bytes>, a6: Z, a7: bool, a8: i32, a9: Z, a10: Option<u16>, a11: Dynamic<u8, Bytes>, a12: RangedInt<u8, 10, 20>, a13: u16, a14: u16, a15: Z)");
    derived::<S428>(v, tier, 9, "tuple S428 (a0: FixedBytes<3>, a1: i32, a2: Dynamic<u8, Bytes>, a3: U8, a4: FixedBytes<3>, a5: N, a6: u16, a7: P2, a8: Z, a9: P2, a10: bool, a11: RangedInt<u8, 10, 20>, a12: Option<u16>, a13: (), a14: bool, a15: Sequence<u16>)");
    derived::<S429>(v, tier, 9, "tuple S429 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, a10: u8, a11: u8, a12: u8, a13: u8, a14: u8, a15: u8, a16: u8)");
    derived::<S430>(v, tier, 9, "tuple S430 (a0: u16, a1: RangedInt<u8, 10, 20>, a2: FixedBytes<3>, a3: U8, a4: FixedBytes<3>, a5: N, a6: RangedInt<u8, 10, 20>, a7: FixedBytes<3>, a8: u16, a9: RangedInt<u8, 10, 20>, a10: P2, a11: (), a12: u16, a13: Dynamic<u8, Bytes>, a14: N, a15: Dynamic<u8, Bytes>, a16: RangedInt<u8, 10, 20>)");
    derived::<S431>(v, tier, 9, "tuple S431 (a0: N, a1: P2, a2: P2, a3: i32, a4: Z, a5: u8, a6: U8, a7: Dynamic<u8, Bytes>, a8: bool, a9: Dynamic<u8, Bytes>, a10: N, a11: P2, a12: U8, a13: P2, a14: FixedBytes<3>, a15: U8, a16: i32)");
    derived::<S432>(v, tier, 9, "tuple S432 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, a10: u8, a11: u8, a12: u8, a13: u8, a14: u8, a15: u8, a16: u8, a17: u8, a18: u8, a19: u8, a20: u8, a21: u8, a22: u8, a23: u8)");
    derived::<S433>(v, tier, 9, "tuple S433 (a0: RangedInt<u8, 10, 20>, a1: u16, a2: FixedBytes<3>, a3: Dynamic<u8, Bytes>, a4: Dynamic<u8, Bytes>, a5: i32, a6: i32, a7: P2, a8: Dynamic<u8, Bytes>, a9: u8, a10: FixedBytes<3>, a11: i32, a12: bool, a13: P2, a14: FixedBytes<3>, a15: bool, a16: bool, a17: (), a18: u8, a19: FixedBytes<3>, a20: U8, a21: Z, a22: (), a23: Sequence<u16>)");
    derived::<S434>(v, tier, 9, "tuple S434 (a0: bool, a1: RangedInt<u8, 10, 20>, a2: u16, a3: U8, a4: Z, a5: P2, a6: N, a7: RangedInt<u8, 10, 20>, a8: i32, a9: RangedInt<u8, 10, 20>, a10: P2, a11: (), a12: N, a13: (), a14: Dynamic<u8, Bytes>, a15: Dynamic<u8, Bytes>, a16: u16, a17: RangedInt<u8, 10, 20>, a18: Z, a19: Option<u16>, a20: P2, a21: U8, a22: u16, a23: RangedInt<u8, 10, 20>)");
    derived::<S435>(v, tier, 9, "tuple S435 (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, a10: u8, a11: u8, a12: u8, a13: u8, a14: u8, a15: u8, a16: u8, a17: u8, a18: u8, a19: u8, a20: u8, a21: u8, a22: u8, a23: u8, a24: u8, a25: u8, a26: u8, a27: u8, a28: u8, a29: u8, a30: u8, a31: u8, a32: u8)");
    derived::<S436>(v, tier, 9, "tuple S436 (a0: (), a1: RangedInt<u8, 10, 20>, a2: FixedBytes<3>, a3: Option<u16>, a4: Dynamic<u8, Bytes>, a5: (), a6: i32, a7: (), a8: Dynamic<u8, Bytes>, a9: i32, a10: Option<u16>, a11: N, a12: bool, a13: u16, a14: P2, a15: i32, a16: (), a17: (), a18: u8, a19: i32, a20: RangedInt<u8, 10, 20>, a21: Z, a22: Option<u16>, a23: u8, a24: Z, a25: N, a26: (), a27: Dynamic<u8, Bytes>, a28: P2, a29: (), a30: u16, a31: Option<u16>, a32: bool)");
    derived::<S437>(v, tier, 9, "tuple S437 (a0: i32, a1: Option<u16>, a2: U8, a3: N, a4: u16, a5: RangedInt<u8, 10, 20>, a6: FixedBytes<3>, a7: Z, a8: Dynamic<u8, Bytes>, a9: Option<u16>, a10: N, a11: N, a12: u16, a13: Dynamic<u8, Bytes>, a14: P2, a15: (), a16: i32, a17: u16, a18: RangedInt<u8, 10, 20>, a19: i32, a20: N, a21: Dynamic<u8, Bytes>, a22: (), a23: Dynamic<u8, Bytes>, a24: Option<u16>, a25: U8, a26: Option<u16>, a27: Dynamic<u8, Bytes>, a28: bool, a29: Z, a30: Z, a31: RangedInt<u8, 10, 20>, a32: Dynamic<u8, Bytes>)");
    fixed::<S438>(v, tier, 9, "tuple S438 ()");
    fixed::<S439>(v, tier, 9, "tuple S439 (a0: u8)");
    fixed::<S440>(v, tier, 9, "tuple S440 (a0: u16)");
    fixed::<S441>(v, tier, 9, "tuple S441 (a0: i32)");
    fixed::<S442>(v, tier, 9, "tuple S442 (a0: bool)");
    fixed::<S443>(v, tier, 9, "tuple S443 (a0: ())");
    fixed::<S444>(v, tier, 9, "tuple S444 (a0: FixedBytes<3>)");
    fixed::<S445>(v, tier, 9, "tuple S445 (a0: RangedInt<u8, 10, 20>)");
    fixed::<S446>(v, tier, 9, "tuple S446 (a0: u8, a1: u8)");
    fixed::<S447>(v, tier, 9, "tuple S447 (a0: u8, a1: u16)");
    fixed::<S448>(v, tier, 9, "tuple S448 (a0: u8, a1: i32)");
    fixed::<S449>(v, tier, 9, "tuple S449 (a0: u8, a1: bool)");
    fixed::<S450>(v, tier, 9, "tuple S450 (a0: u8, a1: ())");
    fixed::<S451>(v, tier, 9, "tuple S451 (a0: u8, a1: FixedBytes<3>)");
    fixed::<S452>(v, tier, 9, "tuple S452 (a0: u8, a1: RangedInt<u8, 10, 20>)");
    fixed::<S453>(v, tier, 9, "tuple S453 (a0: u16, a1: u8)");
    fixed::<S454>(v, tier, 9, "tuple S454 (a0: u16, a1: u16)");
    fixed::<S455>(v, tier, 9, "tuple S455 (a0: u16, a1: i32)");
    fixed::<S456>(v, tier, 9, "tuple S456 (a0: u16, a1: bool)");
    fixed::<S457>(v, tier, 9, "tuple S457 (a0: u16, a1: ())");
    fixed::<S458>(v, tier, 9, "tuple S458 (a0: u16, a1: FixedBytes<3>)");
    fixed::<S459>(v, tier, 9, "tuple S459 (a0: u16, a1: RangedInt<u8, 10, 20>)");
    fixed::<S460>(v, tier, 9, "tuple S460 (a0: i32, a1: u8)");
    fixed::<S461>(v, tier, 9, "tuple S461 (a0: i32, a1: u16)");
    fixed::<S462>(v, tier, 9, "tuple S462 (a0: i32, a1: i32)");
    fixed::<S463>(v, tier, 9, "tuple S463 (a0: i32, a1: bool)");
    fixed::<S464>(v, tier, 9, "tuple S464 (a0: i32, a1: ())");
    fixed::<S465>(v, tier, 9, "tuple S465 (a0: i32, a1: FixedBytes<3>)");
    fixed::<S466>(v, tier, 9, "tuple S466 (a0: i32, a1: RangedInt<u8, 10, 20>)");
    fixed::<S467>(v, tier, 9, "tuple S467 (a0: bool, a1: u8)");
    fixed::<S468>(v, tier, 9, "tuple S468 (a0: bool, a1: u16)");
    fixed::<S469>(v, tier, 9, "tuple S469 (a0: bool, a1: i32)");
    fixed::<S470>(v, tier, 9, "tuple S470 (a0: bool, a1: bool)");
    fixed::<S471>(v, tier, 9, "tuple S471 (a0: bool, a1: ())");
    fixed::<S472>(v, tier, 9, "tuple S472 (a0: bool, a1: FixedBytes<3>)");
    fixed::<S473>(v, tier, 9, "tuple S473 (a0: bool, a1: RangedInt<u8, 10, 20>)");
    fixed::<S474>(v, tier, 9, "tuple S474 (a0: (), a1: u8)");
    fixed::<S475>(v, tier, 9, "tuple S475 (a0: (), a1: u16)");
    fixed::<S476>(v, tier, 9, "tuple S476 (a0: (), a1: i32)");
    fixed::<S477>(v, tier, 9, "tuple S477 (a0: (), a1: bool)");
    fixed::<S478>(v, tier, 9, "tuple S478 (a0: (), a1: ())");
    fixed::<S479>(v, tier, 9, "tuple S479 (a0: (), a1: FixedBytes<3>)");
    fixed::<S480>(v, tier, 9, "tuple S480 (a0: (), a1: RangedInt<u8, 10, 20>)");
    fixed::<S481>(v, tier, 9, "tuple S481 (a0: FixedBytes<3>, a1: u8)");
    fixed::<S482>(v, tier, 9, "tuple S482 (a0: FixedBytes<3>, a1: u16)");
    fixed::<S483>(v, tier, 9, "tuple S483 (a0: FixedBytes<3>, a1: i32)");
    fixed::<S484>(v, tier, 9, "tuple S484 (a0: FixedBytes<3>, a1: bool)");
    fixed::<S485>(v, tier, 9, "tuple S485 (a0: FixedBytes<3>, a1: ())");
    fixed::<S486>(v, tier, 9, "tuple S486 (a0: FixedBytes<3>, a1: FixedBytes<3>)");
    fixed::<S487>(v, tier, 9, "tuple S487 (a0: FixedBytes<3>, a1: RangedInt<u8, 10, 20>)");
    fixed::<S488>(v, tier, 9, "tuple S488 (a0: RangedInt<u8, 10, 20>, a1: u8)");
    fixed::<S489>(v, tier, 9, "tuple S489 (a0: RangedInt<u8, 10, 20>, a1: u16)");
    fixed::<S490>(v, tier, 9, "tuple S490 (a0: RangedInt<u8, 10, 20>, a1: i32)");
    fixed::<S491>(v, tier, 9, "tuple S491 (a0: RangedInt<u8, 10, 20>, a1: bool)");
    fixed::<S492>(v, tier, 9, "tuple S492 (a0: RangedInt<u8, 10, 20>, a1: ())");
    fixed::<S493>(v, tier, 9, "tuple S493 (a0: RangedInt<u8, 10, 20>, a1: FixedBytes<3>)");
    fixed::<S494>(v, tier, 9, "tuple S494 (a0: RangedInt<u8, 10, 20>, a1: RangedInt<u8, 10, 20>)");
    fixed::<S495>(v, tier, 9, "tuple S495 (a0: u8, a1: u8, a2: u8)");
    fixed::<S496>(v, tier, 9, "tuple S496 (a0: u8, a1: u8, a2: u16)");
    fixed::<S497>(v, tier, 9, "tuple S497 (a0: u8, a1: u8, a2: i32)");
    fixed::<S498>(v, tier, 9, "tuple S498 (a0: u8, a1: u16, a2: u8)");
    fixed::<S499>(v, tier, 9, "tuple S499 (a0: u8, a1: u16, a2: u16)");
    fixed::<S500>(v, tier, 9, "tuple S500 (a0: u8, a1: u16, a2: i32)");
    fixed::<S501>(v, tier, 9, "tuple S501 (a0: u8, a1: i32, a2: u8)");
    fixed::<S502>(v, tier, 9, "tuple S502 (a0: u8, a1: i32, a2: u16)");
    fixed::<S503>(v, tier, 9, "tuple S503 (a0: u8, a1: i32, a2: i32)");
    fixed::<S504>(v, tier, 9, "tuple S504 (a0: u16, a1: u8, a2: u8)");
    fixed::<S505>(v, tier, 9, "tuple S505 (a0: u16, a1: u8, a2: u16)");
    fixed::<S506>(v, tier, 9, "tuple S506 (a0: u16, a1: u8, a2: i32)");
    fixed::<S507>(v, tier, 9, "tuple S507 (a0: u16, a1: u16, a2: u8)");
    fixed::<S508>(v, tier, 9, "tuple S508 (a0: u16, a1: u16, a2: u16)");
    fixed::<S509>(v, tier, 9, "tuple S509 (a0: u16, a1: u16, a2: i32)");
    fixed::<S510>(v, tier, 9, "tuple S510 (a0: u16, a1: i32, a2: u8)");
    fixed::<S511>(v, tier, 9, "tuple S511 (a0: u16, a1: i32, a2: u16)");
    fixed::<S512>(v, tier, 9, "tuple S512 (a0: u16, a1: i32, a2: i32)");
    fixed::<S513>(v, tier, 9, "tuple S513 (a0: i32, a1: u8, a2: u8)");
    fixed::<S514>(v, tier, 9, "tuple S514 (a0: i32, a1: u8, a2: u16)");
    fixed::<S515>(v, tier, 9, "tuple S515 (a0: i32, a1: u8, a2: i32)");
    fixed::<S516>(v, tier, 9, "tuple S516 (a0: i32, a1: u16, a2: u8)");
    fixed::<S517>(v, tier, 9, "tuple S517 (a0: i32, a1: u16, a2: u16)");
    fixed::<S518>(v, tier, 9, "tuple S518 (a0: i32, a1: u16, a2: i32)");
    fixed::<S519>(v, tier, 9, "tuple S519 (a0: i32, a1: i32, a2: u8)");
    fixed::<S520>(v, tier, 9, "tuple S520 (a0: i32, a1: i32, a2: u16)");
    fixed::<S521>(v, tier, 9, "tuple S521 (a0: i32, a1: i32, a2: i32)");
    fixed::<S522>(v, tier, 9, "tuple S522 (a0: (), a1: u8, a2: bool, a3: RangedInt<u8, 10, 20>)");
    fixed::<S523>(v, tier, 9, "tuple S523 (a0: FixedBytes<3>, a1: u16, a2: (), a3: u8, a4: bool)");
    fixed::<S524>(v, tier, 9, "tuple S524 (a0: u8, a1: bool, a2: RangedInt<u8, 10, 20>, a3: i32, a4: FixedBytes<3>, a5: u16, a6: ())");
    fixed::<S525>(v, tier, 9, "tuple S525 (a0: u16, a1: (), a2: u8, a3: bool, a4: RangedInt<u8, 10, 20>, a5: i32, a6: FixedBytes<3>, a7: u16)");
    fixed::<S526>(v, tier, 9, "tuple S526 (a0: FixedBytes<3>, a1: u16, a2: (), a3: u8, a4: bool, a5: RangedInt<u8, 10, 20>, a6: i32, a7: FixedBytes<3>, a8: u16, a9: (), a10: u8, a11: bool)");
    derived::<S527>(v, tier, 0, "named S527 {  }");
    derived::<S528>(v, tier, 1, "named S528 { f: u8 }");
    derived::<S529>(v, tier, 1, "named S529 { r#type: u16 }");
    derived::<S530>(v, tier, 1, "named S530 { len: i32 }");
    derived::<S531>(v, tier, 1, "named S531 { unknown: bool }");
    derived::<S532>(v, tier, 1, "named S532 { x: () }");
    derived::<S533>(v, tier, 1, "named S533 { buf: FixedBytes<3> }");
    derived::<S534>(v, tier, 1, "named S534 { p: RangedInt<u8, 10, 20> }");
    derived::<S535>(v, tier, 1, "named S535 { f: Dynamic<u8, Bytes> }");
    derived::<S536>(v, tier, 1, "named S536 { r#type: Option<u16> }");
    derived::<S537>(v, tier, 1, "named S537 { len: N }");
    derived::<S538>(v, tier, 1, "named S538 { unknown: Z }");
    derived::<S539>(v, tier, 1, "named S539 { x: Bytes }");
    derived::<S540>(v, tier, 1, "named S540 { buf: Sequence<u16> }");
    derived::<S541>(v, tier, 1, "named S541 { p: Nullable<u8> }");
    derived::<S542>(v, tier, 1, "named S542 { f: P2 }");
    derived::<S543>(v, tier, 1, "named S543 { r#type: U8 }");
    derived::<S544>(v, tier, 2, "named S544 { write_to: u8, parse: u8 }");
    derived::<S545>(v, tier, 2, "named S545 { _b: u8, _a: u16 }");
    derived::<S546>(v, tier, 2, "named S546 { b: u8, a: i32 }");
    derived::<S547>(v, tier, 2, "named S547 { p: u8, buf: bool }");
    derived::<S548>(v, tier, 2, "named S548 { r#type: u8, f: () }");
    derived::<S549>(v, tier, 2, "named S549 { zz: u8, Aa: FixedBytes<3> }");
    derived::<S550>(v, tier, 2, "named S550 { pos1: u8, pos0: RangedInt<u8, 10, 20> }");
    derived::<S551>(v, tier, 2, "named S551 { write_to: u8, parse: Dynamic<u8, Bytes> }");
    derived::<S552>(v, tier, 2, "named S552 { _b: u8, _a: Option<u16> }");
    derived::<S553>(v, tier, 2, "named S553 { b: u8, a: N }");
    derived::<S554>(v, tier, 2, "named S554 { p: u8, buf: Z }");
    derived::<S555>(v, tier, 2, "named S555 { r#type: u8, f: Bytes }");
    derived::<S556>(v, tier, 2, "named S556 { zz: u8, Aa: Sequence<u16> }");
    derived::<S557>(v, tier, 2, "named S557 { pos1: u8, pos0: Nullable<u8> }");
    derived::<S558>(v, tier, 2, "named S558 { write_to: u8, parse: P2 }");
    derived::<S559>(v, tier, 2, "named S559 { _b: u8, _a: U8 }");
    derived::<S560>(v, tier, 2, "named S560 { b: u16, a: u8 }");
    derived::<S561>(v, tier, 2, "named S561 { p: u16, buf: u16 }");
    derived::<S562>(v, tier, 2, "named S562 { r#type: u16, f: i32 }");
    derived::<S563>(v, tier, 2, "named S563 { zz: u16, Aa: bool }");
    derived::<S564>(v, tier, 2, "named S564 { pos1: u16, pos0: () }");
    derived::<S565>(v, tier, 2, "named S565 { write_to: u16, parse: FixedBytes<3> }");
    derived::<S566>(v, tier, 2, "named S566 { _b: u16, _a: RangedInt<u8, 10, 20> }");
    derived::<S567>(v, tier, 2, "named S567 { b: u16, a: Dynamic<u8, Bytes> }");
    derived::<S568>(v, tier, 2, "named S568 { p: u16, buf: Option<u16> }");
    derived::<S569>(v, tier, 2, "named S569 { r#type: u16, f: N }");
    derived::<S570>(v, tier, 2, "named S570 { zz: u16, Aa: Z }");
    derived::<S571>(v, tier, 2, "named S571 { pos1: u16, pos0: Bytes }");
    derived::<S572>(v, tier, 2, "named S572 { write_to: u16, parse: Sequence<u16> }");
    derived::<S573>(v, tier, 2, "named S573 { _b: u16, _a: Nullable<u8> }");
    derived::<S574>(v, tier, 2, "named S574 { b: u16, a: P2 }");
    derived::<S575>(v, tier, 2, "named S575 { p: u16, buf: U8 }");
    derived::<S576>(v, tier, 2, "named S576 { r#type: i32, f: u8 }");
    derived::<S577>(v, tier, 2, "named S577 { zz: i32, Aa: u16 }");
    derived::<S578>(v, tier, 2, "named S578 { pos1: i32, pos0: i32 }");
    derived::<S579>(v, tier, 2, "named S579 { write_to: i32, parse: bool }");
    derived::<S580>(v, tier, 2, "named S580 { _b: i32, _a: () }");
    derived::<S581>(v, tier, 2, "named S581 { b: i32, a: FixedBytes<3> }");
    derived::<S582>(v, tier, 2, "named S582 { p: i32, buf: RangedInt<u8, 10, 20> }");
    derived::<S583>(v, tier, 2, "named S583 { r#type: i32, f: Dynamic<u8, Bytes> }");
    derived::<S584>(v, tier, 2, "named S584 { zz: i32, Aa: Option<u16> }");
    derived::<S585>(v, tier, 2, "named S585 { pos1: i32, pos0: N }");
    derived::<S586>(v, tier, 2, "named S586 { write_to: i32, parse: Z }");
    derived::<S587>(v, tier, 2, "named S587 { _b: i32, _a: Bytes }");
    derived::<S588>(v, tier, 2, "named S588 { b: i32, a: Sequence<u16> }");
    derived::<S589>(v, tier, 2, "named S589 { p: i32, buf: Nullable<u8> }");
    derived::<S590>(v, tier, 2, "named S590 { r#type: i32, f: P2 }");
    derived::<S591>(v, tier, 2, "named S591 { zz: i32, Aa: U8 }");
    derived::<S592>(v, tier, 2, "named S592 { pos1: bool, pos0: u8 }");
    derived::<S593>(v, tier, 2, "named S593 { write_to: bool, parse: u16 }");
    derived::<S594>(v, tier, 2, "named S594 { _b: bool, _a: i32 }");
    derived::<S595>(v, tier, 2, "named S595 { b: bool, a: bool }");
    derived::<S596>(v, tier, 2, "named S596 { p: bool, buf: () }");
    derived::<S597>(v, tier, 2, "named S597 { r#type: bool, f: FixedBytes<3> }");
    derived::<S598>(v, tier, 2, "named S598 { zz: bool, Aa: RangedInt<u8, 10, 20> }");
    derived::<S599>(v, tier, 2, "named S599 { pos1: bool, pos0: Dynamic<u8, Bytes> }");
    derived::<S600>(v, tier, 2, "named S600 { write_to: bool, parse: Option<u16> }");
    derived::<S601>(v, tier, 2, "named S601 { _b: bool, _a: N }");
    derived::<S602>(v, tier, 2, "named S602 { b: bool, a: Z }");
    derived::<S603>(v, tier, 2, "named S603 { p: bool, buf: Bytes }");
    derived::<S604>(v, tier, 2, "named S604 { r#type: bool, f: Sequence<u16> }");
    derived::<S605>(v, tier, 2, "named S605 { zz: bool, Aa: Nullable<u8> }");
    derived::<S606>(v, tier, 2, "named S606 { pos1: bool, pos0: P2 }");
    derived::<S607>(v, tier, 2, "named S607 { write_to: bool, parse: U8 }");
    derived::<S608>(v, tier, 2, "named S608 { _b: (), _a: u8 }");
    derived::<S609>(v, tier, 2, "named S609 { b: (), a: u16 }");
    derived::<S610>(v, tier, 2, "named S610 { p: (), buf: i32 }");
    derived::<S611>(v, tier, 2, "named S611 { r#type: (), f: bool }");
    derived::<S612>(v, tier, 2, "named S612 { zz: (), Aa: () }");
    derived::<S613>(v, tier, 2, "named S613 { pos1: (), pos0: FixedBytes<3> }");
    derived::<S614>(v, tier, 2, "named S614 { write_to: (), parse: RangedInt<u8, 10, 20> }");
    derived::<S615>(v, tier, 2, "named S615 { _b: (), _a: Dynamic<u8, Bytes> }");
    derived::<S616>(v, tier, 2, "named S616 { b: (), a: Option<u16> }");
    derived::<S617>(v, tier, 2, "named S617 { p: (), buf: N }");
    derived::<S618>(v, tier, 2, "named S618 { r#type: (), f: Z }");
    derived::<S619>(v, tier, 2, "named S619 { zz: (), Aa: Bytes }");
    derived::<S620>(v, tier, 2, "named S620 { pos1: (), pos0: Sequence<u16> }");
    derived::<S621>(v, tier, 2, "named S621 { write_to: (), parse: Nullable<u8> }");
    derived::<S622>(v, tier, 2, "named S622 { _b: (), _a: P2 }");
    derived::<S623>(v, tier, 2, "named S623 { b: (), a: U8 }");
    derived::<S624>(v, tier, 2, "named S624 { p: FixedBytes<3>, buf: u8 }");
    derived::<S625>(v, tier, 2, "named S625 { r#type: FixedBytes<3>, f: u16 }");
    derived::<S626>(v, tier, 2, "named S626 { zz: FixedBytes<3>, Aa: i32 }");
    derived::<S627>(v, tier, 2, "named S627 { pos1: FixedBytes<3>, pos0: bool }");
    derived::<S628>(v, tier, 2, "named S628 { write_to: FixedBytes<3>, parse: () }");
    derived::<S629>(v, tier, 2, "named S629 { _b: FixedBytes<3>, _a: FixedBytes<3> }");
    derived::<S630>(v, tier, 2, "named S630 { b: FixedBytes<3>, a: RangedInt<u8, 10, 20> }");
    derived::<S631>(v, tier, 2, "named S631 { p: FixedBytes<3>, buf: Dynamic<u8, Bytes> }");
    derived::<S632>(v, tier, 2, "named S632 { r#type: FixedBytes<3>, f: Option<u16> }");
    derived::<S633>(v, tier, 2, "named S633 { zz: FixedBytes<3>, Aa: N }");
    derived::<S634>(v, tier, 2, "named S634 { pos1: FixedBytes<3>, pos0: Z }");
    derived::<S635>(v, tier, 2, "named S635 { write_to: FixedBytes<3>, parse: Bytes }");
    derived::<S636>(v, tier, 2, "named S636 { _b: FixedBytes<3>, _a: Sequence<u16> }");
    derived::<S637>(v, tier, 2, "named S637 { b: FixedBytes<3>, a: Nullable<u8> }");
    derived::<S638>(v, tier, 2, "named S638 { p: FixedBytes<3>, buf: P2 }");
    derived::<S639>(v, tier, 2, "named S639 { r#type: FixedBytes<3>, f: U8 }");
    derived::<S640>(v, tier, 2, "named S640 { zz: RangedInt<u8, 10, 20>, Aa: u8 }");
    derived::<S641>(v, tier, 2, "named S641 { pos1: RangedInt<u8, 10, 20>, pos0: u16 }");
    derived::<S642>(v, tier, 2, "named S642 { write_to: RangedInt<u8, 10, 20>, parse: i32 }");
    derived::<S643>(v, tier, 2, "named S643 { _b: RangedInt<u8, 10, 20>, _a: bool }");
    derived::<S644>(v, tier, 2, "named S644 { b: RangedInt<u8, 10, 20>, a: () }");
    derived::<S645>(v, tier, 2, "named S645 { p: RangedInt<u8, 10, 20>, buf: FixedBytes<3> }");
    derived::<S646>(v, tier, 2, "named S646 { r#type: RangedInt<u8, 10, 20>, f: RangedInt<u8, 10, 20> }");
    derived::<S647>(v, tier, 2, "named S647 { zz: RangedInt<u8, 10, 20>, Aa: Dynamic<u8, Bytes> }");
    derived::<S648>(v, tier, 2, "named S648 { pos1: RangedInt<u8, 10, 20>, pos0: Option<u16> }");
    derived::<S649>(v, tier, 2, "named S649 { write_to: RangedInt<u8, 10, 20>, parse: N }");
    derived::<S650>(v, tier, 2, "named S650 { _b: RangedInt<u8, 10, 20>, _a: Z }");
    derived::<S651>(v, tier, 2, "named S651 { b: RangedInt<u8, 10, 20>, a: Bytes }");
    derived::<S652>(v, tier, 2, "named S652 { p: RangedInt<u8, 10, 20>, buf: Sequence<u16> }");
    derived::<S653>(v, tier, 2, "named S653 { r#type: RangedInt<u8, 10, 20>, f: Nullable<u8> }");
    derived::<S654>(v, tier, 2, "named S654 { zz: RangedInt<u8, 10, 20>, Aa: P2 }");
    derived::<S655>(v, tier, 2, "named S655 { pos1: RangedInt<u8, 10, 20>, pos0: U8 }");
    derived::<S656>(v, tier, 2, "named S656 { write_to: Dynamic<u8, Bytes>, parse: u8 }");
    derived::<S657>(v, tier, 2, "named S657 { _b: Dynamic<u8, Bytes>, _a: u16 }");
    derived::<S658>(v, tier, 2, "named S658 { b: Dynamic<u8, Bytes>, a: i32 }");
    derived::<S659>(v, tier, 2, "named S659 { p: Dynamic<u8, Bytes>, buf: bool }");
    derived::<S660>(v, tier, 2, "named S660 { r#type: Dynamic<u8, Bytes>, f: () }");
    derived::<S661>(v, tier, 2, "named S661 { zz: Dynamic<u8, Bytes>, Aa: FixedBytes<3> }");
    derived::<S662>(v, tier, 2, "named S662 { pos1: Dynamic<u8, Bytes>, pos0: RangedInt<u8, 10, 20> }");
    derived::<S663>(v, tier, 2, "named S663 { write_to: Dynamic<u8, Bytes>, parse: Dynamic<u8, Bytes> }");
    derived::<S664>(v, tier, 2, "named S664 { _b: Dynamic<u8, Bytes>, _a: Option<u16> }");
    derived::<S665>(v, tier, 2, "named S665 { b: Dynamic<u8, Bytes>, a: N }");
    derived::<S666>(v, tier, 2, "named S666 { p: Dynamic<u8, Bytes>, buf: Z }");
    derived::<S667>(v, tier, 2, "named S667 { r#type: Dynamic<u8, Bytes>, f: Bytes }");
    derived::<S668>(v, tier, 2, "named S668 { zz: Dynamic<u8, Bytes>, Aa: Sequence<u16> }");
    derived::<S669>(v, tier, 2, "named S669 { pos1: Dynamic<u8, Bytes>, pos0: Nullable<u8> }");
    derived::<S670>(v, tier, 2, "named S670 { write_to: Dynamic<u8, Bytes>, parse: P2 }");
    derived::<S671>(v, tier, 2, "named S671 { _b: Dynamic<u8, Bytes>, _a: U8 }");
    derived::<S672>(v, tier, 2, "named S672 { b: Option<u16>, a: u8 }");
    derived::<S673>(v, tier, 2, "named S673 { p: Option<u16>, buf: u16 }");
    derived::<S674>(v, tier, 2, "named S674 { r#type: Option<u16>, f: i32 }");
    derived::<S675>(v, tier, 2, "named S675 { zz: Option<u16>, Aa: bool }");
    derived::<S676>(v, tier, 2, "named S676 { pos1: Option<u16>, pos0: () }");
    derived::<S677>(v, tier, 2, "named S677 { write_to: Option<u16>, parse: FixedBytes<3> }");
    derived::<S678>(v, tier, 2, "named S678 { _b: Option<u16>, _a: RangedInt<u8, 10, 20> }");
    derived::<S679>(v, tier, 2, "named S679 { b: Option<u16>, a: Dynamic<u8, Bytes> }");
    derived::<S680>(v, tier, 2, "named S680 { p: Option<u16>, buf: Option<u16> }");
    derived::<S681>(v, tier, 2, "named S681 { r#type: Option<u16>, f: N }");
    derived::<S682>(v, tier, 2, "named S682 { zz: Option<u16>, Aa: Z }");
    derived::<S683>(v, tier, 2, "named S683 { pos1: Option<u16>, pos0: Bytes }");
    derived::<S684>(v, tier, 2, "named S684 { write_to: Option<u16>, parse: Sequence<u16> }");
    derived::<S685>(v, tier, 2, "named S685 { _b: Option<u16>, _a: Nullable<u8> }");
    derived::<S686>(v, tier, 2, "named S686 { b: Option<u16>, a: P2 }");
    derived::<S687>(v, tier, 2, "named S687 { p: Option<u16>, buf: U8 }");
    derived::<S688>(v, tier, 2, "named S688 { r#type: N, f: u8 }");
    derived::<S689>(v, tier, 2, "named S689 { zz: N, Aa: u16 }");
    derived::<S690>(v, tier, 2, "named S690 { pos1: N, pos0: i32 }");
    derived::<S691>(v, tier, 2, "named S691 { write_to: N, parse: bool }");
    derived::<S692>(v, tier, 2, "named S692 { _b: N, _a: () }");
    derived::<S693>(v, tier, 2, "named S693 { b: N, a: FixedBytes<3> }");
    derived::<S694>(v, tier, 2, "named S694 { p: N, buf: RangedInt<u8, 10, 20> }");
    derived::<S695>(v, tier, 2, "named S695 { r#type: N, f: Dynamic<u8, Bytes> }");
    derived::<S696>(v, tier, 2, "named S696 { zz: N, Aa: Option<u16> }");
    derived::<S697>(v, tier, 2, "named S697 { pos1: N, pos0: N }");
    derived::<S698>(v, tier, 2, "named S698 { write_to: N, parse: Z }");
    derived::<S699>(v, tier, 2, "named S699 { _b: N, _a: Bytes }");
    derived::<S700>(v, tier, 2, "named S700 { b: N, a: Sequence<u16> }");
    derived::<S701>(v, tier, 2, "named S701 { p: N, buf: Nullable<u8> }");
    derived::<S702>(v, tier, 2, "named S702 { r#type: N, f: P2 }");
    derived::<S703>(v, tier, 2, "named S703 { zz: N, Aa: U8 }");
    derived::<S704>(v, tier, 2, "named S704 { pos1: Z, pos0: u8 }");
    derived::<S705>(v, tier, 2, "named S705 { write_to: Z, parse: u16 }");
    derived::<S706>(v, tier, 2, "named S706 { _b: Z, _a: i32 }");
    derived::<S707>(v, tier, 2, "named S707 { b: Z, a: bool }");
    derived::<S708>(v, tier, 2, "named S708 { p: Z, buf: () }");
    derived::<S709>(v, tier, 2, "named S709 { r#type: Z, f: FixedBytes<3> }");
    derived::<S710>(v, tier, 2, "named S710 { zz: Z, Aa: RangedInt<u8, 10, 20> }");
    derived::<S711>(v, tier, 2, "named S711 { pos1: Z, pos0: Dynamic<u8, Bytes> }");
    derived::<S712>(v, tier, 2, "named S712 { write_to: Z, parse: Option<u16> }");
    derived::<S713>(v, tier, 2, "named S713 { _b: Z, _a: N }");
    derived::<S714>(v, tier, 2, "named S714 { b: Z, a: Z }");
    derived::<S715>(v, tier, 2, "named S715 { p: Z, buf: Bytes }");
    derived::<S716>(v, tier, 2, "named S716 { r#type: Z, f: Sequence<u16> }");
    derived::<S717>(v, tier, 2, "named S717 { zz: Z, Aa: Nullable<u8> }");
    derived::<S718>(v, tier, 2, "named S718 { pos1: Z, pos0: P2 }");
    derived::<S719>(v, tier, 2, "named S719 { write_to: Z, parse: U8 }");
    derived::<S720>(v, tier, 2, "named S720 { _b: Bytes, _a: u8 }");
    derived::<S721>(v, tier, 2, "named S721 { b: Bytes, a: u16 }");
    derived::<S722>(v, tier, 2, "named S722 { p: Bytes, buf: i32 }");
    derived::<S723>(v, tier, 2, "named S723 { r#type: Bytes, f: bool }");
    derived::<S724>(v, tier, 2, "named S724 { zz: Bytes, Aa: () }");
    derived::<S725>(v, tier, 2, "named S725 { pos1: Bytes, pos0: FixedBytes<3> }");
    derived::<S726>(v, tier, 2, "named S726 { write_to: Bytes, parse: RangedInt<u8, 10, 20> }");
    derived::<S727>(v, tier, 2, "named S727 { _b: Bytes, _a: Dynamic<u8, Bytes> }");
    derived::<S728>(v, tier, 2, "named S728 { b: Bytes, a: Option<u16> }");
    derived::<S729>(v, tier, 2, "named S729 { p: Bytes, buf: N }");
    derived::<S730>(v, tier, 2, "named S730 { r#type: Bytes, f: Z }");
    derived::<S731>(v, tier, 2, "named S731 { zz: Bytes, Aa: Bytes }");
    derived::<S732>(v, tier, 2, "named S732 { pos1: Bytes, pos0: Sequence<u16> }");
    derived::<S733>(v, tier, 2, "named S733 { write_to: Bytes, parse: Nullable<u8> }");
    derived::<S734>(v, tier, 2, "named S734 { _b: Bytes, _a: P2 }");
    derived::<S735>(v, tier, 2, "named S735 { b: Bytes, a: U8 }");
    derived::<S736>(v, tier, 2, "named S736 { p: Sequence<u16>, buf: u8 }");
    derived::<S737>(v, tier, 2, "named S737 { r#type: Sequence<u16>, f: u16 }");
    derived::<S738>(v, tier, 2, "named S738 { zz: Sequence<u16>, Aa: i32 }");
    derived::<S739>(v, tier, 2, "named S739 { pos1: Sequence<u16>, pos0: bool }");
    derived::<S740>(v, tier, 2, "named S740 { write_to: Sequence<u16>, parse: () }");
    derived::<S741>(v, tier, 2, "named S741 { _b: Sequence<u16>, _a: FixedBytes<3> }");
    derived::<S742>(v, tier, 2, "named S742 { b: Sequence<u16>, a: RangedInt<u8, 10, 20> }");
    derived::<S743>(v, tier, 2, "named S743 { p: Sequence<u16>, buf: Dynamic<u8, Bytes> }");
    derived::<S744>(v, tier, 2, "named S744 { r#type: Sequence<u16>, f: Option<u16> }");
    derived::<S745>(v, tier, 2, "named S745 { zz: Sequence<u16>, Aa: N }");
    derived::<S746>(v, tier, 2, "named S746 { pos1: Sequence<u16>, pos0: Z }");
    derived::<S747>(v, tier, 2, "named S747 { write_to: Sequence<u16>, parse: Bytes }");
    derived::<S748>(v, tier, 2, "named S748 { _b: Sequence<u16>, _a: Sequence<u16> }");
    derived::<S749>(v, tier, 2, "named S749 { b: Sequence<u16>, a: Nullable<u8> }");
    derived::<S750>(v, tier, 2, "named S750 { p: Sequence<u16>, buf: P2 }");
    derived::<S751>(v, tier, 2, "named S751 { r#type: Sequence<u16>, f: U8 }");
    derived::<S752>(v, tier, 2, "named S752 { zz: Nullable<u8>, Aa: u8 }");
    derived::<S753>(v, tier, 2, "named S753 { pos1: Nullable<u8>, pos0: u16 }");
    derived::<S754>(v, tier, 2, "named S754 { write_to: Nullable<u8>, parse: i32 }");
    derived::<S755>(v, tier, 2, "named S755 { _b: Nullable<u8>, _a: bool }");
    derived::<S756>(v, tier, 2, "named S756 { b: Nullable<u8>, a: () }");
    derived::<S757>(v, tier, 2, "named S757 { p: Nullable<u8>, buf: FixedBytes<3> }");
    derived::<S758>(v, tier, 2, "named S758 { r#type: Nullable<u8>, f: RangedInt<u8, 10, 20> }");
    derived::<S759>(v, tier, 2, "named S759 { zz: Nullable<u8>, Aa: Dynamic<u8, Bytes> }");
    derived::<S760>(v, tier, 2, "named S760 { pos1: Nullable<u8>, pos0: Option<u16> }");
    derived::<S761>(v, tier, 2, "named S761 { write_to: Nullable<u8>, parse: N }");
    derived::<S762>(v, tier, 2, "named S762 { _b: Nullable<u8>, _a: Z }");
    derived::<S763>(v, tier, 2, "named S763 { b: Nullable<u8>, a: Bytes }");
    derived::<S764>(v, tier, 2, "named S764 { p: Nullable<u8>, buf: Sequence<u16> }");
    derived::<S765>(v, tier, 2, "named S765 { r#type: Nullable<u8>, f: Nullable<u8> }");
    derived::<S766>(v, tier, 2, "named S766 { zz: Nullable<u8>, Aa: P2 }");
    derived::<S767>(v, tier, 2, "named S767 { pos1: Nullable<u8>, pos0: U8 }");
    derived::<S768>(v, tier, 2, "named S768 { write_to: P2, parse: u8 }");
    derived::<S769>(v, tier, 2, "named S769 { _b: P2, _a: u16 }");
    derived::<S770>(v, tier, 2, "named S770 { b: P2, a: i32 }");
    derived::<S771>(v, tier, 2, "named S771 { p: P2, buf: bool }");
    derived::<S772>(v, tier, 2, "named S772 { r#type: P2, f: () }");
    derived::<S773>(v, tier, 2, "named S773 { zz: P2, Aa: FixedBytes<3> }");
    derived::<S774>(v, tier, 2, "named S774 { pos1: P2, pos0: RangedInt<u8, 10, 20> }");
    derived::<S775>(v, tier, 2, "named S775 { write_to: P2, parse: Dynamic<u8, Bytes> }");
    derived::<S776>(v, tier, 2, "named S776 { _b: P2, _a: Option<u16> }");
    derived::<S777>(v, tier, 2, "named S777 { b: P2, a: N }");
    derived::<S778>(v, tier, 2, "named S778 { p: P2, buf: Z }");
    derived::<S779>(v, tier, 2, "named S779 { r#type: P2, f: Bytes }");
    derived::<S780>(v, tier, 2, "named S780 { zz: P2, Aa: Sequence<u16> }");
    derived::<S781>(v, tier, 2, "named S781 { pos1: P2, pos0: Nullable<u8> }");
    derived::<S782>(v, tier, 2, "named S782 { write_to: P2, parse: P2 }");
    derived::<S783>(v, tier, 2, "named S783 { _b: P2, _a: U8 }");
    derived::<S784>(v, tier, 2, "named S784 { b: U8, a: u8 }");
    derived::<S785>(v, tier, 2, "named S785 { p: U8, buf: u16 }");
    derived::<S786>(v, tier, 2, "named S786 { r#type: U8, f: i32 }");
    derived::<S787>(v, tier, 2, "named S787 { zz: U8, Aa: bool }");
    derived::<S788>(v, tier, 2, "named S788 { pos1: U8, pos0: () }");
    derived::<S789>(v, tier, 2, "named S789 { write_to: U8, parse: FixedBytes<3> }");
    derived::<S790>(v, tier, 2, "named S790 { _b: U8, _a: RangedInt<u8, 10, 20> }");
    derived::<S791>(v, tier, 2, "named S791 { b: U8, a: Dynamic<u8, Bytes> }");
    derived::<S792>(v, tier, 2, "named S792 { p: U8, buf: Option<u16> }");
    derived::<S793>(v, tier, 2, "named S793 { r#type: U8, f: N }");
    derived::<S794>(v, tier, 2, "named S794 { zz: U8, Aa: Z }");
    derived::<S795>(v, tier, 2, "named S795 { pos1: U8, pos0: Bytes }");
    derived::<S796>(v, tier, 2, "named S796 { write_to: U8, parse: Sequence<u16> }");
    derived::<S797>(v, tier, 2, "named S797 { _b: U8, _a: Nullable<u8> }");
    derived::<S798>(v, tier, 2, "named S798 { b: U8, a: P2 }");
    derived::<S799>(v, tier, 2, "named S799 { p: U8, buf: U8 }");
    derived::<S800>(v, tier, 3, "named S800 { c: u8, a: u8, b: u8 }");
    derived::<S801>(v, tier, 3, "named S801 { buf: u8, p: u8, f: u16 }");
    derived::<S802>(v, tier, 3, "named S802 { z9: u8, z10: u8, z1: Dynamic<u8, Bytes> }");
    derived::<S803>(v, tier, 3, "named S803 { r#fn: u8, r#type: u8, r#in: Option<u16> }");
    derived::<S804>(v, tier, 3, "named S804 { pos2: u8, pos0: u8, pos1: Bytes }");
    derived::<S805>(v, tier, 3, "named S805 { c: u8, a: u16, b: u8 }");
    derived::<S806>(v, tier, 3, "named S806 { buf: u8, p: u16, f: u16 }");
    derived::<S807>(v, tier, 3, "named S807 { z9: u8, z10: u16, z1: Dynamic<u8, Bytes> }");
    derived::<S808>(v, tier, 3, "named S808 { r#fn: u8, r#type: u16, r#in: Option<u16> }");
    derived::<S809>(v, tier, 3, "named S809 { pos2: u8, pos0: u16, pos1: Bytes }");
    derived::<S810>(v, tier, 3, "named S810 { c: u8, a: Dynamic<u8, Bytes>, b: u8 }");
    derived::<S811>(v, tier, 3, "named S811 { buf: u8, p: Dynamic<u8, Bytes>, f: u16 }");
    derived::<S812>(v, tier, 3, "named S812 { z9: u8, z10: Dynamic<u8, Bytes>, z1: Dynamic<u8, Bytes> }");
    derived::<S813>(v, tier, 3, "named S813 { r#fn: u8, r#type: Dynamic<u8, Bytes>, r#in: Option<u16> }");
    derived::<S814>(v, tier, 3, "named S814 { pos2: u8, pos0: Dynamic<u8, Bytes>, pos1: Bytes }");
    derived::<S815>(v, tier, 3, "named S815 { c: u8, a: Option<u16>, b: u8 }");
    derived::<S816>(v, tier, 3, "named S816 { buf: u8, p: Option<u16>, f: u16 }");
    derived::<S817>(v, tier, 3, "named S817 { z9: u8, z10: Option<u16>, z1: Dynamic<u8, Bytes> }");
    derived::<S818>(v, tier, 3, "named S818 { r#fn: u8, r#type: Option<u16>, r#in: Option<u16> }");
    derived::<S819>(v, tier, 3, "named S819 { pos2: u8, pos0: Option<u16>, pos1: Bytes }");
    derived::<S820>(v, tier, 3, "named S820 { c: u8, a: Bytes, b: u8 }");
    derived::<S821>(v, tier, 3, "named S821 { buf: u8, p: Bytes, f: u16 }");
    derived::<S822>(v, tier, 3, "named S822 { z9: u8, z10: Bytes, z1: Dynamic<u8, Bytes> }");
    derived::<S823>(v, tier, 3, "named S823 { r#fn: u8, r#type: Bytes, r#in: Option<u16> }");
    derived::<S824>(v, tier, 3, "named S824 { pos2: u8, pos0: Bytes, pos1: Bytes }");
    derived::<S825>(v, tier, 3, "named S825 { c: u16, a: u8, b: u8 }");
    derived::<S826>(v, tier, 3, "named S826 { buf: u16, p: u8, f: u16 }");
    derived::<S827>(v, tier, 3, "named S827 { z9: u16, z10: u8, z1: Dynamic<u8, Bytes> }");
    derived::<S828>(v, tier, 3, "named S828 { r#fn: u16, r#type: u8, r#in: Option<u16> }");
    derived::<S829>(v, tier, 3, "named S829 { pos2: u16, pos0: u8, pos1: Bytes }");
    derived::<S830>(v, tier, 3, "named S830 { c: u16, a: u16, b: u8 }");
    derived::<S831>(v, tier, 3, "named S831 { buf: u16, p: u16, f: u16 }");
    derived::<S832>(v, tier, 3, "named S832 { z9: u16, z10: u16, z1: Dynamic<u8, Bytes> }");
    derived::<S833>(v, tier, 3, "named S833 { r#fn: u16, r#type: u16, r#in: Option<u16> }");
    derived::<S834>(v, tier, 3, "named S834 { pos2: u16, pos0: u16, pos1: Bytes }");
    derived::<S835>(v, tier, 3, "named S835 { c: u16, a: Dynamic<u8, Bytes>, b: u8 }");
    derived::<S836>(v, tier, 3, "named S836 { buf: u16, p: Dynamic<u8, Bytes>, f: u16 }");
    derived::<S837>(v, tier, 3, "named S837 { z9: u16, z10: Dynamic<u8, Bytes>, z1: Dynamic<u8, Bytes> }");
    derived::<S838>(v, tier, 3, "named S838 { r#fn: u16, r#type: Dynamic<u8, Bytes>, r#in: Option<u16> }");
    derived::<S839>(v, tier, 3, "named S839 { pos2: u16, pos0: Dynamic<u8, Bytes>, pos1: Bytes }");
    derived::<S840>(v, tier, 3, "named S840 { c: u16, a: Option<u16>, b: u8 }");
    derived::<S841>(v, tier, 3, "named S841 { buf: u16, p: Option<u16>, f: u16 }");
    derived::<S842>(v, tier, 3, "named S842 { z9: u16, z10: Option<u16>, z1: Dynamic<u8, Bytes> }");
    derived::<S843>(v, tier, 3, "named S843 { r#fn: u16, r#type: Option<u16>, r#in: Option<u16> }");
    derived::<S844>(v, tier, 3, "named S844 { pos2: u16, pos0: Option<u16>, pos1: Bytes }");
    derived::<S845>(v, tier, 3, "named S845 { c: u16, a: Bytes, b: u8 }");
    derived::<S846>(v, tier, 3, "named S846 { buf: u16, p: Bytes, f: u16 }");
    derived::<S847>(v, tier, 3, "named S847 { z9: u16, z10: Bytes, z1: Dynamic<u8, Bytes> }");
    derived::<S848>(v, tier, 3, "named S848 { r#fn: u16, r#type: Bytes, r#in: Option<u16> }");
    derived::<S849>(v, tier, 3, "named S849 { pos2: u16, pos0: Bytes, pos1: Bytes }");
    derived::<S850>(v, tier, 3, "named S850 { c: Dynamic<u8, Bytes>, a: u8, b: u8 }");
    derived::<S851>(v, tier, 3, "named S851 { buf: Dynamic<u8, Bytes>, p: u8, f: u16 }");
    derived::<S852>(v, tier, 3, "named S852 { z9: Dynamic<u8, Bytes>, z10: u8, z1: Dynamic<u8, Bytes> }");
    derived::<S853>(v, tier, 3, "named S853 { r#fn: Dynamic<u8, Bytes>, r#type: u8, r#in: Option<u16> }");
    derived::<S854>(v, tier, 3, "named S854 { pos2: Dynamic<u8, Bytes>, pos0: u8, pos1: Bytes }");
    derived::<S855>(v, tier, 3, "named S855 { c: Dynamic<u8, Bytes>, a: u16, b: u8 }");
    derived::<S856>(v, tier, 3, "named S856 { buf: Dynamic<u8, Bytes>, p: u16, f: u16 }");
    derived::<S857>(v, tier, 3, "named S857 { z9: Dynamic<u8, Bytes>, z10: u16, z1: Dynamic<u8, Bytes> }");
    derived::<S858>(v, tier, 3, "named S858 { r#fn: Dynamic<u8, Bytes>, r#type: u16, r#in: Option<u16> }");
    derived::<S859>(v, tier, 3, "named S859 { pos2: Dynamic<u8, Bytes>, pos0: u16, pos1: Bytes }");
    derived::<S860>(v, tier, 3, "named S860 { c: Dynamic<u8, Bytes>, a: Dynamic<u8, Bytes>, b: u8 }");
    derived::<S861>(v, tier, 3, "named S861 { buf: Dynamic<u8, Bytes>, p: Dynamic<u8, Bytes>, f: u16 }");
    derived::<S862>(v, tier, 3, "named S862 { z9: Dynamic<u8, Bytes>, z10: Dynamic<u8, Bytes>, z1: Dynamic<u8, Bytes> }");
    derived::<S863>(v, tier, 3, "named S863 { r#fn: Dynamic<u8, Bytes>, r#type: Dynamic<u8, Bytes>, r#in: Option<u16> }");
    derived::<S864>(v, tier, 3, "named S864 { pos2: Dynamic<u8, Bytes>, pos0: Dynamic<u8, Bytes>, pos1: Bytes }");
    derived::<S865>(v, tier, 3, "named S865 { c: Dynamic<u8, Bytes>, a: Option<u16>, b: u8 }");
    derived::<S866>(v, tier, 3, "named S866 { buf: Dynamic<u8, Bytes>, p: Option<u16>, f: u16 }");
    derived::<S867>(v, tier, 3, "named S867 { z9: Dynamic<u8, Bytes>, z10: Option<u16>, z1: Dynamic<u8, Bytes> }");
    derived::<S868>(v, tier, 3, "named S868 { r#fn: Dynamic<u8, Bytes>, r#type: Option<u16>, r#in: Option<u16> }");
    derived::<S869>(v, tier, 3, "named S869 { pos2: Dynamic<u8, Bytes>, pos0: Option<u16>, pos1: Bytes }");
    derived::<S870>(v, tier, 3, "named S870 { c: Dynamic<u8, Bytes>, a: Bytes, b: u8 }");
    derived::<S871>(v, tier, 3, "named S871 { buf: Dynamic<u8, Bytes>, p: Bytes, f: u16 }");
    derived::<S872>(v, tier, 3, "named S872 { z9: Dynamic<u8, Bytes>, z10: Bytes, z1: Dynamic<u8, Bytes> }");
    derived::<S873>(v, tier, 3, "named S873 { r#fn: Dynamic<u8, Bytes>, r#type: Bytes, r#in: Option<u16> }");
    derived::<S874>(v, tier, 3, "named S874 { pos2: Dynamic<u8, Bytes>, pos0: Bytes, pos1: Bytes }");
    derived::<S875>(v, tier, 3, "named S875 { c: Option<u16>, a: u8, b: u8 }");
    derived::<S876>(v, tier, 3, "named S876 { buf: Option<u16>, p: u8, f: u16 }");
    derived::<S877>(v, tier, 3, "named S877 { z9: Option<u16>, z10: u8, z1: Dynamic<u8, Bytes> }");
    derived::<S878>(v, tier, 3, "named S878 { r#fn: Option<u16>, r#type: u8, r#in: Option<u16> }");
    derived::<S879>(v, tier, 3, "named S879 { pos2: Option<u16>, pos0: u8, pos1: Bytes }");
    derived::<S880>(v, tier, 3, "named S880 { c: Option<u16>, a: u16, b: u8 }");
    derived::<S881>(v, tier, 3, "named S881 { buf: Option<u16>, p: u16, f: u16 }");
    derived::<S882>(v, tier, 3, "named S882 { z9: Option<u16>, z10: u16, z1: Dynamic<u8, Bytes> }");
    derived::<S883>(v, tier, 3, "named S883 { r#fn: Option<u16>, r#type: u16, r#in: Option<u16> }");
    derived::<S884>(v, tier, 3, "named S884 { pos2: Option<u16>, pos0: u16, pos1: Bytes }");
    derived::<S885>(v, tier, 3, "named S885 { c: Option<u16>, a: Dynamic<u8, Bytes>, b: u8 }");
    derived::<S886>(v, tier, 3, "named S886 { buf: Option<u16>, p: Dynamic<u8, Bytes>, f: u16 }");
    derived::<S887>(v, tier, 3, "named S887 { z9: Option<u16>, z10: Dynamic<u8, Bytes>, z1: Dynamic<u8, Bytes> }");
    derived::<S888>(v, tier, 3, "named S888 { r#fn: Option<u16>, r#type: Dynamic<u8, Bytes>, r#in: Option<u16> }");
    derived::<S889>(v, tier, 3, "named S889 { pos2: Option<u16>, pos0: Dynamic<u8, Bytes>, pos1: Bytes }");
    derived::<S890>(v, tier, 3, "named S890 { c: Option<u16>, a: Option<u16>, b: u8 }");
    derived::<S891>(v, tier, 3, "named S891 { buf: Option<u16>, p: Option<u16>, f: u16 }");
    derived::<S892>(v, tier, 3, "named S892 { z9: Option<u16>, z10: Option<u16>, z1: Dynamic<u8, Bytes> }");
    derived::<S893>(v, tier, 3, "named S893 { r#fn: Option<u16>, r#type: Option<u16>, r#in: Option<u16> }");
    derived::<S894>(v, tier, 3, "named S894 { pos2: Option<u16>, pos0: Option<u16>, pos1: Bytes }");
    derived::<S895>(v, tier, 3, "named S895 { c: Option<u16>, a: Bytes, b: u8 }");
    derived::<S896>(v, tier, 3, "named S896 { buf: Option<u16>, p: Bytes, f: u16 }");
    derived::<S897>(v, tier, 3, "named S897 { z9: Option<u16>, z10: Bytes, z1: Dynamic<u8, Bytes> }");
    derived::<S898>(v, tier, 3, "named S898 { r#fn: Option<u16>, r#type: Bytes, r#in: Option<u16> }");
    derived::<S899>(v, tier, 3, "named S899 { pos2: Option<u16>, pos0: Bytes, pos1: Bytes }");
    derived::<S900>(v, tier, 3, "named S900 { c: Bytes, a: u8, b: u8 }");
    derived::<S901>(v, tier, 3, "named S901 { buf: Bytes, p: u8, f: u16 }");
    derived::<S902>(v, tier, 3, "named S902 { z9: Bytes, z10: u8, z1: Dynamic<u8, Bytes> }");
    derived::<S903>(v, tier, 3, "named S903 { r#fn: Bytes, r#type: u8, r#in: Option<u16> }");
    derived::<S904>(v, tier, 3, "named S904 { pos2: Bytes, pos0: u8, pos1: Bytes }");
    derived::<S905>(v, tier, 3, "named S905 { c: Bytes, a: u16, b: u8 }");
    derived::<S906>(v, tier, 3, "named S906 { buf: Bytes, p: u16, f: u16 }");
    derived::<S907>(v, tier, 3, "named S907 { z9: Bytes, z10: u16, z1: Dynamic<u8, Bytes> }");
    derived::<S908>(v, tier, 3, "named S908 { r#fn: Bytes, r#type: u16, r#in: Option<u16> }");
    derived::<S909>(v, tier, 3, "named S909 { pos2: Bytes, pos0: u16, pos1: Bytes }");
    derived::<S910>(v, tier, 3, "named S910 { c: Bytes, a: Dynamic<u8, Bytes>, b: u8 }");
    derived::<S911>(v, tier, 3, "named S911 { buf: Bytes, p: Dynamic<u8, Bytes>, f: u16 }");
    derived::<S912>(v, tier, 3, "named S912 { z9: Bytes, z10: Dynamic<u8, Bytes>, z1: Dynamic<u8, Bytes> }");
    derived::<S913>(v, tier, 3, "named S913 { r#fn: Bytes, r#type: Dynamic<u8, Bytes>, r#in: Option<u16> }");
    derived::<S914>(v, tier, 3, "named S914 { pos2: Bytes, pos0: Dynamic<u8, Bytes>, pos1: Bytes }");
    derived::<S915>(v, tier, 3, "named S915 { c: Bytes, a: Option<u16>, b: u8 }");
    derived::<S916>(v, tier, 3, "named S916 { buf: Bytes, p: Option<u16>, f: u16 }");
    derived::<S917>(v, tier, 3, "named S917 { z9: Bytes, z10: Option<u16>, z1: Dynamic<u8, Bytes> }");
    derived::<S918>(v, tier, 3, "named S918 { r#fn: Bytes, r#type: Option<u16>, r#in: Option<u16> }");
    derived::<S919>(v, tier, 3, "named S919 { pos2: Bytes, pos0: Option<u16>, pos1: Bytes }");
    derived::<S920>(v, tier, 3, "named S920 { c: Bytes, a: Bytes, b: u8 }");
    derived::<S921>(v, tier, 3, "named S921 { buf: Bytes, p: Bytes, f: u16 }");
    derived::<S922>(v, tier, 3, "named S922 { z9: Bytes, z10: Bytes, z1: Dynamic<u8, Bytes> }");
    derived::<S923>(v, tier, 3, "named S923 { r#fn: Bytes, r#type: Bytes, r#in: Option<u16> }");
    derived::<S924>(v, tier, 3, "named S924 { pos2: Bytes, pos0: Bytes, pos1: Bytes }");
    derived::<S925>(v, tier, 9, "named S925 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8 }");
    derived::<S926>(v, tier, 9, "named S926 { z0: i32, y1: Z, x2: U8, w3: RangedInt<u8, 10, 20> }");
    derived::<S927>(v, tier, 9, "named S927 { f3x0: P2, f10x1: Option<u16>, f17x2: Z, f24x3: Nullable<u8> }");
    derived::<S928>(v, tier, 9, "named S928 { z0: u8, y1: u8, x2: u8, w3: u8, v4: u8 }");
    derived::<S929>(v, tier, 9, "named S929 { f3x0: RangedInt<u8, 10, 20>, f10x1: (), f17x2: FixedBytes<3>, f24x3: bool, f2x4: i32 }");
    derived::<S930>(v, tier, 9, "named S930 { z0: P2, y1: Dynamic<u8, Bytes>, x2: FixedBytes<3>, w3: FixedBytes<3>, v4: RangedInt<u8, 10, 20> }");
    derived::<S931>(v, tier, 9, "named S931 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8, f2x4: u8, f9x5: u8 }");
    derived::<S932>(v, tier, 9, "named S932 { z0: N, y1: Dynamic<u8, Bytes>, x2: i32, w3: u16, v4: N, u5: () }");
    derived::<S933>(v, tier, 9, "named S933 { f3x0: (), f10x1: N, f17x2: Dynamic<u8, Bytes>, f24x3: FixedBytes<3>, f2x4: P2, f9x5: i32 }");
    derived::<S934>(v, tier, 9, "named S934 { z0: u8, y1: u8, x2: u8, w3: u8, v4: u8, u5: u8, t6: u8 }");
    derived::<S935>(v, tier, 9, "named S935 { f3x0: Dynamic<u8, Bytes>, f10x1: RangedInt<u8, 10, 20>, f17x2: Z, f24x3: P2, f2x4: u8, f9x5: (), f16x6: Dynamic<u8, Bytes> }");
    derived::<S936>(v, tier, 9, "named S936 { z0: (), y1: Option<u16>, x2: P2, w3: (), v4: (), u5: u8, t6: Option<u16> }");
    derived::<S937>(v, tier, 9, "named S937 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8, f2x4: u8, f9x5: u8, f16x6: u8, f23x7: u8 }");
    derived::<S938>(v, tier, 9, "named S938 { z0: U8, y1: Z, x2: i32, w3: RangedInt<u8, 10, 20>, v4: u16, u5: RangedInt<u8, 10, 20>, t6: P2, s7: Sequence<u16> }");
    derived::<S939>(v, tier, 9, "named S939 { f3x0: Z, f10x1: FixedBytes<3>, f17x2: u8, f24x3: u16, f2x4: FixedBytes<3>, f9x5: bool, f16x6: Option<u16>, f23x7: P2 }");
    derived::<S940>(v, tier, 9, "named S940 { z0: u8, y1: u8, x2: u8, w3: u8, v4: u8, u5: u8, t6: u8, s7: u8, r8: u8 }");
    derived::<S941>(v, tier, 9, "named S941 { f3x0: U8, f10x1: Z, f17x2: N, f24x3: i32, f2x4: Z, f9x5: Dynamic<u8, Bytes>, f16x6: u16, f23x7: FixedBytes<3>, f1x8: bool }");
    derived::<S942>(v, tier, 9, "named S942 { z0: u8, y1: Dynamic<u8, Bytes>, x2: i32, w3: RangedInt<u8, 10, 20>, v4: Dynamic<u8, Bytes>, u5: U8, t6: Option<u16>, s7: N, r8: P2 }");
    derived::<S943>(v, tier, 9, "named S943 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8, f2x4: u8, f9x5: u8, f16x6: u8, f23x7: u8, f1x8: u8, f8x9: u8 }");
    derived::<S944>(v, tier, 9, "named S944 { z0: bool, y1: P2, x2: FixedBytes<3>, w3: (), v4: u8, u5: RangedInt<u8, 10, 20>, t6: u16, s7: Z, r8: Z, q9: Z }");
    derived::<S945>(v, tier, 9, "named S945 { f3x0: bool, f10x1: P2, f17x2: N, f24x3: RangedInt<u8, 10, 20>, f2x4: P2, f9x5: u16, f16x6: N, f23x7: Dynamic<u8, Bytes>, f1x8: bool, f8x9: FixedBytes<3> }");
    derived::<S946>(v, tier, 9, "named S946 { z0: u8, y1: u8, x2: u8, w3: u8, v4: u8, u5: u8, t6: u8, s7: u8, r8: u8, q9: u8, p10: u8 }");
    derived::<S947>(v, tier, 9, "named S947 { f3x0: u16, f10x1: i32, f17x2: Z, f24x3: i32, f2x4: Z, f9x5: RangedInt<u8, 10, 20>, f16x6: Option<u16>, f23x7: Z, f1x8: N, f8x9: bool, f15x10: N }");
    derived::<S948>(v, tier, 9, "named S948 { z0: (), y1: i32, x2: u8, w3: Option<u16>, v4: U8, u5: Option<u16>, t6: Z, s7: RangedInt<u8, 10, 20>, r8: N, q9: P2, p10: Nullable<u8> }");
    derived::<S949>(v, tier, 9, "named S949 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8, f2x4: u8, f9x5: u8, f16x6: u8, f23x7: u8, f1x8: u8, f8x9: u8, f15x10: u8, f22x11: u8 }");
    derived::<S950>(v, tier, 9, "named S950 { z0: i32, y1: (), x2: P2, w3: (), v4: Z, u5: u16, t6: P2, s7: (), r8: u8, q9: u8, p10: (), o11: Z }");
    derived::<S951>(v, tier, 9, "named S951 { f3x0: RangedInt<u8, 10, 20>, f10x1: Z, f17x2: Option<u16>, f24x3: Z, f2x4: FixedBytes<3>, f9x5: u8, f16x6: U8, f23x7: Dynamic<u8, Bytes>, f1x8: u8, f8x9: u16, f15x10: U8, f22x11: FixedBytes<3> }");
    derived::<S952>(v, tier, 9, "named S952 { z0: u8, y1: u8, x2: u8, w3: u8, v4: u8, u5: u8, t6: u8, s7: u8, r8: u8, q9: u8, p10: u8, o11: u8, n12: u8, m13: u8, l14: u8, k15: u8 }");
    derived::<S953>(v, tier, 9, "named S953 { f3x0: FixedBytes<3>, f10x1: Z, f17x2: u16, f24x3: i32, f2x4: U8, f9x5: Dynamic<u8, Bytes>, f16x6: Z, f23x7: bool, f1x8: i32, f8x9: Z, f15x10: Option<u16>, f22x11: Dynamic<u8, Bytes>, f0x12: RangedInt<u8, 10, 20>, f7x13: u16, f14x14: u16, f21x15: Z }");
    derived::<S954>(v, tier, 9, "named S954 { z0: FixedBytes<3>, y1: i32, x2: Dynamic<u8, Bytes>, w3: U8, v4: FixedBytes<3>, u5: N, t6: u16, s7: P2, r8: Z, q9: P2, p10: bool, o11: RangedInt<u8, 10, 20>, n12: Option<u16>, m13: (), l14: bool, k15: Sequence<u16> }");
    derived::<S955>(v, tier, 9, "named S955 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8, f2x4: u8, f9x5: u8, f16x6: u8, f23x7: u8, f1x8: u8, f8x9: u8, f15x10: u8, f22x11: u8, f0x12: u8, f7x13: u8, f14x14: u8, f21x15: u8, f28x16: u8 }");
    derived::<S956>(v, tier, 9, "named S956 { z0: u16, y1: RangedInt<u8, 10, 20>, x2: FixedBytes<3>, w3: U8, v4: FixedBytes<3>, u5: N, t6: RangedInt<u8, 10, 20>, s7: FixedBytes<3>, r8: u16, q9: RangedInt<u8, 10, 20>, p10: P2, o11: (), n12: u16, m13: Dynamic<u8, Bytes>, l14: N, k15: Dynamic<u8, Bytes>, j16: RangedInt<u8, 10, 20> }");
    derived::<S957>(v, tier, 9, "named S957 { f3x0: N, f10x1: P2, f17x2: P2, f24x3: i32, f2x4: Z, f9x5: u8, f16x6: U8, f23x7: Dynamic<u8, Bytes>, f1x8: bool, f8x9: Dynamic<u8, Bytes>, f15x10: N, f22x11: P2, f0x12: U8, f7x13: P2, f14x14: FixedBytes<3>, f21x15: U8, f28x16: i32 }");
    derived::<S958>(v, tier, 9, "named S958 { z0: u8, y1: u8, x2: u8, w3: u8, v4: u8, u5: u8, t6: u8, s7: u8, r8: u8, q9: u8, p10: u8, o11: u8, n12: u8, m13: u8, l14: u8, k15: u8, j16: u8, i17: u8, h18: u8, g19: u8, f20: u8, e21: u8, d22: u8, c23: u8 }");
    derived::<S959>(v, tier, 9, "named S959 { f3x0: RangedInt<u8, 10, 20>, f10x1: u16, f17x2: FixedBytes<3>, f24x3: Dynamic<u8, Bytes>, f2x4: Dynamic<u8, Bytes>, f9x5: i32, f16x6: i32, f23x7: P2, f1x8: Dynamic<u8, Bytes>, f8x9: u8, f15x10: FixedBytes<3>, f22x11: i32, f0x12: bool, f7x13: P2, f14x14: FixedBytes<3>, f21x15: bool, f28x16: bool, f6x17: (), f13x18: u8, f20x19: FixedBytes<3>, f27x20: U8, f5x21: Z, f12x22: (), f19x23: Sequence<u16> }");
    derived::<S960>(v, tier, 9, "named S960 { z0: bool, y1: RangedInt<u8, 10, 20>, x2: u16, w3: U8, v4: Z, u5: P2, t6: N, s7: RangedInt<u8, 10, 20>, r8: i32, q9: RangedInt<u8, 10, 20>, p10: P2, o11: (), n12: N, m13: (), l14: Dynamic<u8, Bytes>, k15: Dynamic<u8, Bytes>, j16: u16, i17: RangedInt<u8, 10, 20>, h18: Z, g19: Option<u16>, f20: P2, e21: U8, d22: u16, c23: RangedInt<u8, 10, 20> }");
    derived::<S961>(v, tier, 9, "named S961 { f3x0: u8, f10x1: u8, f17x2: u8, f24x3: u8, f2x4: u8, f9x5: u8, f16x6: u8, f23x7: u8, f1x8: u8, f8x9: u8, f15x10: u8, f22x11: u8, f0x12: u8, f7x13: u8, f14x14: u8, f21x15: u8, f28x16: u8, f6x17: u8, f13x18: u8, f20x19: u8, f27x20: u8, f5x21: u8, f12x22: u8, f19x23: u8, f26x24: u8, f4x25: u8, f11x26: u8, f18x27: u8, f25x28: u8, f3x29: u8, f10x30: u8, f17x31: u8, f24x32: u8 }");
    derived::<S962>(v, tier, 9, "named S962 { z0: (), y1: RangedInt<u8, 10, 20>, x2: FixedBytes<3>, w3: Option<u16>, v4: Dynamic<u8, Bytes>, u5: (), t6: i32, s7: (), r8: Dynamic<u8, Bytes>, q9: i32, p10: Option<u16>, o11: N, n12: bool, m13: u16, l14: P2, k15: i32, j16: (), i17: (), h18: u8, g19: i32, f20: RangedInt<u8, 10, 20>, e21: Z, d22: Option<u16>, c23: u8, b24: Z, a25: N, z26: (), y27: Dynamic<u8, Bytes>, x28: P2, w29: (), v30: u16, u31: Option<u16>, t32: bool }");
    derived::<S963>(v, tier, 9, "named S963 { f3x0: i32, f10x1: Option<u16>, f17x2: U8, f24x3: N, f2x4: u16, f9x5: RangedInt<u8, 10, 20>, f16x6: FixedBytes<3>, f23x7: Z, f1x8: Dynamic<u8, Bytes>, f8x9: Option<u16>, f15x10: N, f22x11: N, f0x12: u16, f7x13: Dynamic<u8, Bytes>, f14x14: P2, f21x15: (), f28x16: i32, f6x17: u16, f13x18: RangedInt<u8, 10, 20>, f20x19: i32, f27x20: N, f5x21: Dynamic<u8, Bytes>, f12x22: (), f19x23: Dynamic<u8, Bytes>, f26x24: Option<u16>, f4x25: U8, f11x26: Option<u16>, f18x27: Dynamic<u8, Bytes>, f25x28: bool, f3x29: Z, f10x30: Z, f17x31: RangedInt<u8, 10, 20>, f24x32: Dynamic<u8, Bytes> }");
    fixed::<S964>(v, tier, 9, "named S964 {  }");
    fixed::<S965>(v, tier, 9, "named S965 { unknown: u8 }");
    fixed::<S966>(v, tier, 9, "named S966 { x: u16 }");
    fixed::<S967>(v, tier, 9, "named S967 { buf: i32 }");
    fixed::<S968>(v, tier, 9, "named S968 { p: bool }");
    fixed::<S969>(v, tier, 9, "named S969 { f: () }");
    fixed::<S970>(v, tier, 9, "named S970 { r#type: FixedBytes<3> }");
    fixed::<S971>(v, tier, 9, "named S971 { len: RangedInt<u8, 10, 20> }");
    fixed::<S972>(v, tier, 9, "named S972 { _b: u8, _a: u8 }");
    fixed::<S973>(v, tier, 9, "named S973 { b: u8, a: u16 }");
    fixed::<S974>(v, tier, 9, "named S974 { p: u8, buf: i32 }");
    fixed::<S975>(v, tier, 9, "named S975 { r#type: u8, f: bool }");
    fixed::<S976>(v, tier, 9, "named S976 { zz: u8, Aa: () }");
    fixed::<S977>(v, tier, 9, "named S977 { pos1: u8, pos0: FixedBytes<3> }");
    fixed::<S978>(v, tier, 9, "named S978 { write_to: u8, parse: RangedInt<u8, 10, 20> }");
    fixed::<S979>(v, tier, 9, "named S979 { _b: u16, _a: u8 }");
    fixed::<S980>(v, tier, 9, "named S980 { b: u16, a: u16 }");
    fixed::<S981>(v, tier, 9, "named S981 { p: u16, buf: i32 }");
    fixed::<S982>(v, tier, 9, "named S982 { r#type: u16, f: bool }");
    fixed::<S983>(v, tier, 9, "named S983 { zz: u16, Aa: () }");
    fixed::<S984>(v, tier, 9, "named S984 { pos1: u16, pos0: FixedBytes<3> }");
    fixed::<S985>(v, tier, 9, "named S985 { write_to: u16, parse: RangedInt<u8, 10, 20> }");
    fixed::<S986>(v, tier, 9, "named S986 { _b: i32, _a: u8 }");
    fixed::<S987>(v, tier, 9, "named S987 { b: i32, a: u16 }");
    fixed::<S988>(v, tier, 9, "named S988 { p: i32, buf: i32 }");
    fixed::<S989>(v, tier, 9, "named S989 { r#type: i32, f: bool }");
    fixed::<S990>(v, tier, 9, "named S990 { zz: i32, Aa: () }");
    fixed::<S991>(v, tier, 9, "named S991 { pos1: i32, pos0: FixedBytes<3> }");
    fixed::<S992>(v, tier, 9, "named S992 { write_to: i32, parse: RangedInt<u8, 10, 20> }");
    fixed::<S993>(v, tier, 9, "named S993 { _b: bool, _a: u8 }");
    fixed::<S994>(v, tier, 9, "named S994 { b: bool, a: u16 }");
    fixed::<S995>(v, tier, 9, "named S995 { p: bool, buf: i32 }");
    fixed::<S996>(v, tier, 9, "named S996 { r#type: bool, f: bool }");
    fixed::<S997>(v, tier, 9, "named S997 { zz: bool, Aa: () }");
    fixed::<S998>(v, tier, 9, "named S998 { pos1: bool, pos0: FixedBytes<3> }");
    fixed::<S999>(v, tier, 9, "named S999 { write_to: bool, parse: RangedInt<u8, 10, 20> }");
    fixed::<S1000>(v, tier, 9, "named S1000 { _b: (), _a: u8 }");
    fixed::<S1001>(v, tier, 9, "named S1001 { b: (), a: u16 }");
    fixed::<S1002>(v, tier, 9, "named S1002 { p: (), buf: i32 }");
    fixed::<S1003>(v, tier, 9, "named S1003 { r#type: (), f: bool }");
    fixed::<S1004>(v, tier, 9, "named S1004 { zz: (), Aa: () }");
    fixed::<S1005>(v, tier, 9, "named S1005 { pos1: (), pos0: FixedBytes<3> }");
    fixed::<S1006>(v, tier, 9, "named S1006 { write_to: (), parse: RangedInt<u8, 10, 20> }");
    fixed::<S1007>(v, tier, 9, "named S1007 { _b: FixedBytes<3>, _a: u8 }");
    fixed::<S1008>(v, tier, 9, "named S1008 { b: FixedBytes<3>, a: u16 }");
    fixed::<S1009>(v, tier, 9, "named S1009 { p: FixedBytes<3>, buf: i32 }");
    fixed::<S1010>(v, tier, 9, "named S1010 { r#type: FixedBytes<3>, f: bool }");
    fixed::<S1011>(v, tier, 9, "named S1011 { zz: FixedBytes<3>, Aa: () }");
    fixed::<S1012>(v, tier, 9, "named S1012 { pos1: FixedBytes<3>, pos0: FixedBytes<3> }");
    fixed::<S1013>(v, tier, 9, "named S1013 { write_to: FixedBytes<3>, parse: RangedInt<u8, 10, 20> }");
    fixed::<S1014>(v, tier, 9, "named S1014 { _b: RangedInt<u8, 10, 20>, _a: u8 }");
    fixed::<S1015>(v, tier, 9, "named S1015 { b: RangedInt<u8, 10, 20>, a: u16 }");
    fixed::<S1016>(v, tier, 9, "named S1016 { p: RangedInt<u8, 10, 20>, buf: i32 }");
    fixed::<S1017>(v, tier, 9, "named S1017 { r#type: RangedInt<u8, 10, 20>, f: bool }");
    fixed::<S1018>(v, tier, 9, "named S1018 { zz: RangedInt<u8, 10, 20>, Aa: () }");
    fixed::<S1019>(v, tier, 9, "named S1019 { pos1: RangedInt<u8, 10, 20>, pos0: FixedBytes<3> }");
    fixed::<S1020>(v, tier, 9, "named S1020 { write_to: RangedInt<u8, 10, 20>, parse: RangedInt<u8, 10, 20> }");
    fixed::<S1021>(v, tier, 9, "named S1021 { buf: u8, p: u8, f: u8 }");
    fixed::<S1022>(v, tier, 9, "named S1022 { z9: u8, z10: u8, z1: u16 }");
    fixed::<S1023>(v, tier, 9, "named S1023 { r#fn: u8, r#type: u8, r#in: i32 }");
    fixed::<S1024>(v, tier, 9, "named S1024 { pos2: u8, pos0: u16, pos1: u8 }");
    fixed::<S1025>(v, tier, 9, "named S1025 { c: u8, a: u16, b: u16 }");
    fixed::<S1026>(v, tier, 9, "named S1026 { buf: u8, p: u16, f: i32 }");
    fixed::<S1027>(v, tier, 9, "named S1027 { z9: u8, z10: i32, z1: u8 }");
    fixed::<S1028>(v, tier, 9, "named S1028 { r#fn: u8, r#type: i32, r#in: u16 }");
    fixed::<S1029>(v, tier, 9, "named S1029 { pos2: u8, pos0: i32, pos1: i32 }");
    fixed::<S1030>(v, tier, 9, "named S1030 { c: u16, a: u8, b: u8 }");
    fixed::<S1031>(v, tier, 9, "named S1031 { buf: u16, p: u8, f: u16 }");
    fixed::<S1032>(v, tier, 9, "named S1032 { z9: u16, z10: u8, z1: i32 }");
    fixed::<S1033>(v, tier, 9, "named S1033 { r#fn: u16, r#type: u16, r#in: u8 }");
    fixed::<S1034>(v, tier, 9, "named S1034 { pos2: u16, pos0: u16, pos1: u16 }");
    fixed::<S1035>(v, tier, 9, "named S1035 { c: u16, a: u16, b: i32 }");
    fixed::<S1036>(v, tier, 9, "named S1036 { buf: u16, p: i32, f: u8 }");
    fixed::<S1037>(v, tier, 9, "named S1037 { z9: u16, z10: i32, z1: u16 }");
    fixed::<S1038>(v, tier, 9, "named S1038 { r#fn: u16, r#type: i32, r#in: i32 }");
    fixed::<S1039>(v, tier, 9, "named S1039 { pos2: i32, pos0: u8, pos1: u8 }");
    fixed::<S1040>(v, tier, 9, "named S1040 { c: i32, a: u8, b: u16 }");
    fixed::<S1041>(v, tier, 9, "named S1041 { buf: i32, p: u8, f: i32 }");
    fixed::<S1042>(v, tier, 9, "named S1042 { z9: i32, z10: u16, z1: u8 }");
    fixed::<S1043>(v, tier, 9, "named S1043 { r#fn: i32, r#type: u16, r#in: u16 }");
    fixed::<S1044>(v, tier, 9, "named S1044 { pos2: i32, pos0: u16, pos1: i32 }");
    fixed::<S1045>(v, tier, 9, "named S1045 { c: i32, a: i32, b: u8 }");
    fixed::<S1046>(v, tier, 9, "named S1046 { buf: i32, p: i32, f: u16 }");
    fixed::<S1047>(v, tier, 9, "named S1047 { z9: i32, z10: i32, z1: i32 }");
    fixed::<S1048>(v, tier, 9, "named S1048 { z0: (), y1: u8, x2: bool, w3: RangedInt<u8, 10, 20> }");
    fixed::<S1049>(v, tier, 9, "named S1049 { f3x0: FixedBytes<3>, f10x1: u16, f17x2: (), f24x3: u8, f2x4: bool }");
    fixed::<S1050>(v, tier, 9, "named S1050 { z0: u8, y1: bool, x2: RangedInt<u8, 10, 20>, w3: i32, v4: FixedBytes<3>, u5: u16, t6: () }");
    fixed::<S1051>(v, tier, 9, "named S1051 { f3x0: u16, f10x1: (), f17x2: u8, f24x3: bool, f2x4: RangedInt<u8, 10, 20>, f9x5: i32, f16x6: FixedBytes<3>, f23x7: u16 }");
    fixed::<S1052>(v, tier, 9, "named S1052 { z0: FixedBytes<3>, y1: u16, x2: (), w3: u8, v4: bool, u5: RangedInt<u8, 10, 20>, t6: i32, s7: FixedBytes<3>, r8: u16, q9: (), p10: u8, o11: bool }");
    derived::<S1053>(v, tier, 9, "named S1053 { self_: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1054>(v, tier, 9, "named S1054 { zz1: Option<u16>, self_: u8 }");
    derived::<S1055>(v, tier, 9, "named S1055 { buf: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1056>(v, tier, 9, "named S1056 { zz1: Option<u16>, buf: u8 }");
    derived::<S1057>(v, tier, 9, "named S1057 { p: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1058>(v, tier, 9, "named S1058 { zz1: Option<u16>, p: u8 }");
    derived::<S1059>(v, tier, 9, "named S1059 { U: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1060>(v, tier, 9, "named S1060 { zz1: Option<u16>, U: u8 }");
    derived::<S1061>(v, tier, 9, "named S1061 { P: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1062>(v, tier, 9, "named S1062 { zz1: Option<u16>, P: u8 }");
    derived::<S1063>(v, tier, 9, "named S1063 { some: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1064>(v, tier, 9, "named S1064 { zz1: Option<u16>, some: u8 }");
    derived::<S1065>(v, tier, 9, "named S1065 { none: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1066>(v, tier, 9, "named S1066 { zz1: Option<u16>, none: u8 }");
    derived::<S1067>(v, tier, 9, "named S1067 { KNOWN: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1068>(v, tier, 9, "named S1068 { zz1: Option<u16>, KNOWN: u8 }");
    derived::<S1069>(v, tier, 9, "named S1069 { LEN: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1070>(v, tier, 9, "named S1070 { zz1: Option<u16>, LEN: u8 }");
    derived::<S1071>(v, tier, 9, "named S1071 { usize: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1072>(v, tier, 9, "named S1072 { zz1: Option<u16>, usize: u8 }");
    derived::<S1073>(v, tier, 9, "named S1073 { n: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1074>(v, tier, 9, "named S1074 { zz1: Option<u16>, n: u8 }");
    derived::<S1075>(v, tier, 9, "named S1075 { r#struct: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1076>(v, tier, 9, "named S1076 { zz1: Option<u16>, r#struct: u8 }");
    derived::<S1077>(v, tier, 9, "named S1077 { r#match: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1078>(v, tier, 9, "named S1078 { zz1: Option<u16>, r#match: u8 }");
    derived::<S1079>(v, tier, 9, "named S1079 { tedium: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1080>(v, tier, 9, "named S1080 { zz1: Option<u16>, tedium: u8 }");
    derived::<S1081>(v, tier, 9, "named S1081 { Self_: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1082>(v, tier, 9, "named S1082 { zz1: Option<u16>, Self_: u8 }");
    derived::<S1083>(v, tier, 9, "named S1083 { a1: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1084>(v, tier, 9, "named S1084 { zz1: Option<u16>, a1: u8 }");
    derived::<S1085>(v, tier, 9, "named S1085 { _0: u8, zz1: Dynamic<u8, Bytes>, aa1: u16 }");
    derived::<S1086>(v, tier, 9, "named S1086 { zz1: Option<u16>, _0: u8 }");
}
