//! Enumerations with as many variants as one byte can tell apart (generated).
use crate::typed::P;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize)]
pub enum Wide {
    V0,
    V1(P),
    V2 { x: P },
    V3,
    V4(P),
    V5 { x: P },
    V6,
    V7(P),
    V8 { x: P },
    V9,
    V10(P),
    V11 { x: P },
    V12,
    V13(P),
    V14 { x: P },
    V15,
    V16(P),
    V17 { x: P },
    V18,
    V19(P),
    V20 { x: P },
    V21,
    V22(P),
    V23 { x: P },
    V24,
    V25(P),
    V26 { x: P },
    V27,
    V28(P),
    V29 { x: P },
    V30,
    V31(P),
    V32 { x: P },
    V33,
    V34(P),
    V35 { x: P },
    V36,
    V37(P),
    V38 { x: P },
    V39,
    V40(P),
    V41 { x: P },
    V42,
    V43(P),
    V44 { x: P },
    V45,
    V46(P),
    V47 { x: P },
    V48,
    V49(P),
    V50 { x: P },
    V51,
    V52(P),
    V53 { x: P },
    V54,
    V55(P),
    V56 { x: P },
    V57,
    V58(P),
    V59 { x: P },
    V60,
    V61(P),
    V62 { x: P },
    V63,
    V64(P),
    V65 { x: P },
    V66,
    V67(P),
    V68 { x: P },
    V69,
    V70(P),
    V71 { x: P },
    V72,
    V73(P),
    V74 { x: P },
    V75,
    V76(P),
    V77 { x: P },
    V78,
    V79(P),
    V80 { x: P },
    V81,
    V82(P),
    V83 { x: P },
    V84,
    V85(P),
    V86 { x: P },
    V87,
    V88(P),
    V89 { x: P },
    V90,
    V91(P),
    V92 { x: P },
    V93,
    V94(P),
    V95 { x: P },
    V96,
    V97(P),
    V98 { x: P },
    V99,
    V100(P),
    V101 { x: P },
    V102,
    V103(P),
    V104 { x: P },
    V105,
    V106(P),
    V107 { x: P },
    V108,
    V109(P),
    V110 { x: P },
    V111,
    V112(P),
    V113 { x: P },
    V114,
    V115(P),
    V116 { x: P },
    V117,
    V118(P),
    V119 { x: P },
    V120,
    V121(P),
    V122 { x: P },
    V123,
    V124(P),
    V125 { x: P },
    V126,
    V127(P),
    V128 { x: P },
    V129,
    V130(P),
    V131 { x: P },
    V132,
    V133(P),
    V134 { x: P },
    V135,
    V136(P),
    V137 { x: P },
    V138,
    V139(P),
    V140 { x: P },
    V141,
    V142(P),
    V143 { x: P },
    V144,
    V145(P),
    V146 { x: P },
    V147,
    V148(P),
    V149 { x: P },
    V150,
    V151(P),
    V152 { x: P },
    V153,
    V154(P),
    V155 { x: P },
    V156,
    V157(P),
    V158 { x: P },
    V159,
    V160(P),
    V161 { x: P },
    V162,
    V163(P),
    V164 { x: P },
    V165,
    V166(P),
    V167 { x: P },
    V168,
    V169(P),
    V170 { x: P },
    V171,
    V172(P),
    V173 { x: P },
    V174,
    V175(P),
    V176 { x: P },
    V177,
    V178(P),
    V179 { x: P },
    V180,
    V181(P),
    V182 { x: P },
    V183,
    V184(P),
    V185 { x: P },
    V186,
    V187(P),
    V188 { x: P },
    V189,
    V190(P),
    V191 { x: P },
    V192,
    V193(P),
    V194 { x: P },
    V195,
    V196(P),
    V197 { x: P },
    V198,
    V199(P),
    V200 { x: P },
    V201,
    V202(P),
    V203 { x: P },
    V204,
    V205(P),
    V206 { x: P },
    V207,
    V208(P),
    V209 { x: P },
    V210,
    V211(P),
    V212 { x: P },
    V213,
    V214(P),
    V215 { x: P },
    V216,
    V217(P),
    V218 { x: P },
    V219,
    V220(P),
    V221 { x: P },
    V222,
    V223(P),
    V224 { x: P },
    V225,
    V226(P),
    V227 { x: P },
    V228,
    V229(P),
    V230 { x: P },
    V231,
    V232(P),
    V233 { x: P },
    V234,
    V235(P),
    V236 { x: P },
    V237,
    V238(P),
    V239 { x: P },
    V240,
    V241(P),
    V242 { x: P },
    V243,
    V244(P),
    V245 { x: P },
    V246,
    V247(P),
    V248 { x: P },
    V249,
    V250(P),
    V251 { x: P },
    V252,
    V253(P),
    V254 { x: P },
    V255,
}

#[derive(Serialize, Deserialize)]
#[serde(rename = "Polyvar")]
pub enum WidePv {
    V0,
    V1(P),
    V2 { x: P },
    V3,
    V4(P),
    V5 { x: P },
    V6,
    V7(P),
    V8 { x: P },
    V9,
    V10(P),
    V11 { x: P },
    V12,
    V13(P),
    V14 { x: P },
    V15,
    V16(P),
    V17 { x: P },
    V18,
    V19(P),
    V20 { x: P },
    V21,
    V22(P),
    V23 { x: P },
    V24,
    V25(P),
    V26 { x: P },
    V27,
    V28(P),
    V29 { x: P },
    V30,
    V31(P),
    V32 { x: P },
    V33,
    V34(P),
    V35 { x: P },
    V36,
    V37(P),
    V38 { x: P },
    V39,
    V40(P),
    V41 { x: P },
    V42,
    V43(P),
    V44 { x: P },
    V45,
    V46(P),
    V47 { x: P },
    V48,
    V49(P),
    V50 { x: P },
    V51,
    V52(P),
    V53 { x: P },
    V54,
    V55(P),
    V56 { x: P },
    V57,
    V58(P),
    V59 { x: P },
    V60,
    V61(P),
    V62 { x: P },
    V63,
    V64(P),
    V65 { x: P },
    V66,
    V67(P),
    V68 { x: P },
    V69,
    V70(P),
    V71 { x: P },
    V72,
    V73(P),
    V74 { x: P },
    V75,
    V76(P),
    V77 { x: P },
    V78,
    V79(P),
    V80 { x: P },
    V81,
    V82(P),
    V83 { x: P },
    V84,
    V85(P),
    V86 { x: P },
    V87,
    V88(P),
    V89 { x: P },
    V90,
    V91(P),
    V92 { x: P },
    V93,
    V94(P),
    V95 { x: P },
    V96,
    V97(P),
    V98 { x: P },
    V99,
    V100(P),
    V101 { x: P },
    V102,
    V103(P),
    V104 { x: P },
    V105,
    V106(P),
    V107 { x: P },
    V108,
    V109(P),
    V110 { x: P },
    V111,
    V112(P),
    V113 { x: P },
    V114,
    V115(P),
    V116 { x: P },
    V117,
    V118(P),
    V119 { x: P },
    V120,
    V121(P),
    V122 { x: P },
    V123,
    V124(P),
    V125 { x: P },
    V126,
    V127(P),
    V128 { x: P },
    V129,
    V130(P),
    V131 { x: P },
    V132,
    V133(P),
    V134 { x: P },
    V135,
    V136(P),
    V137 { x: P },
    V138,
    V139(P),
    V140 { x: P },
    V141,
    V142(P),
    V143 { x: P },
    V144,
    V145(P),
    V146 { x: P },
    V147,
    V148(P),
    V149 { x: P },
    V150,
    V151(P),
    V152 { x: P },
    V153,
    V154(P),
    V155 { x: P },
    V156,
    V157(P),
    V158 { x: P },
    V159,
    V160(P),
    V161 { x: P },
    V162,
    V163(P),
    V164 { x: P },
    V165,
    V166(P),
    V167 { x: P },
    V168,
    V169(P),
    V170 { x: P },
    V171,
    V172(P),
    V173 { x: P },
    V174,
    V175(P),
    V176 { x: P },
    V177,
    V178(P),
    V179 { x: P },
    V180,
    V181(P),
    V182 { x: P },
    V183,
    V184(P),
    V185 { x: P },
    V186,
    V187(P),
    V188 { x: P },
    V189,
    V190(P),
    V191 { x: P },
    V192,
    V193(P),
    V194 { x: P },
    V195,
    V196(P),
    V197 { x: P },
    V198,
    V199(P),
    V200 { x: P },
    V201,
    V202(P),
    V203 { x: P },
    V204,
    V205(P),
    V206 { x: P },
    V207,
    V208(P),
    V209 { x: P },
    V210,
    V211(P),
    V212 { x: P },
    V213,
    V214(P),
    V215 { x: P },
    V216,
    V217(P),
    V218 { x: P },
    V219,
    V220(P),
    V221 { x: P },
    V222,
    V223(P),
    V224 { x: P },
    V225,
    V226(P),
    V227 { x: P },
    V228,
    V229(P),
    V230 { x: P },
    V231,
    V232(P),
    V233 { x: P },
    V234,
    V235(P),
    V236 { x: P },
    V237,
    V238(P),
    V239 { x: P },
    V240,
    V241(P),
    V242 { x: P },
    V243,
    V244(P),
    V245 { x: P },
    V246,
    V247(P),
    V248 { x: P },
    V249,
    V250(P),
    V251 { x: P },
    V252,
    V253(P),
    V254 { x: P },
    V255,
}
