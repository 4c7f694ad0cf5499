// generated by sa/dspec.py
macro_rules! dser { ($($name:ident: $ty:ty;)*) => { $( pub fn $name<'a>(x: &'a $ty) -> &'a dyn Serialize { x } )* }; }
macro_rules! dde { ($($name:ident: $ty:ty;)*) => { $( pub fn $name<'a>(x: &'a mut Option<$ty>) -> SinkHandle<'a> { Deserialize::deserialize_into(x) } )* }; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct Nm0_none {
    pub a: V<0>,
    pub foo_bar: V<1>,
    pub one_two_three: V<2>,
    pub r#type: V<3>,
    pub x1: V<4>,
    #[deser(rename = "Re Named")]
    pub other_name: V<5>,
    #[deser(alias = "al1", alias = "Al-2")]
    pub with_alias: V<6>,
    #[deser(rename = "bOth", alias = "both_of_them")]
    pub both_of: V<7>,
    pub a_b_c: V<8>,
    #[deser(rename = "", alias = "zeta")]
    pub zeta: V<9>,
}
dser! { root_s_nm0_none: Nm0_none; }
dde! { root_d_nm0_none: Nm0_none; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct Nn0_none {
    pub with2digits: V<0>,
    pub y_1: V<1>,
    pub a1_b2: V<2>,
    pub long_name_with_many_words_in_it: V<3>,
    #[deser(alias = "m")]
    pub r#match: V<4>,
    pub _lead: V<6>,
    pub trail_: V<7>,
    pub dou__ble: V<8>,
    pub größe_in_m: V<5>,
}
dser! { root_s_nn0_none: Nn0_none; }
dde! { root_d_nn0_none: Nn0_none; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "lowercase")]
pub struct Nm1_lowercase {
    pub a: V<0>,
    pub foo_bar: V<1>,
    pub one_two_three: V<2>,
    pub r#type: V<3>,
    pub x1: V<4>,
    #[deser(rename = "Re Named")]
    pub other_name: V<5>,
    #[deser(alias = "al1")]
    #[deser(alias = "Al-2")]
    pub with_alias: V<6>,
    #[deser(rename = "bOth")]
    #[deser(alias = "both_of_them")]
    pub both_of: V<7>,
    pub a_b_c: V<8>,
    #[deser(rename = "")]
    #[deser(alias = "zeta")]
    pub zeta: V<9>,
}
dser! { root_s_nm1_lowercase: Nm1_lowercase; }
dde! { root_d_nm1_lowercase: Nm1_lowercase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "lowercase")]
pub struct Nn1_lowercase {
    pub with2digits: V<0>,
    pub y_1: V<1>,
    pub a1_b2: V<2>,
    pub long_name_with_many_words_in_it: V<3>,
    #[deser(alias = "m")]
    pub r#match: V<4>,
    pub _lead: V<6>,
    pub trail_: V<7>,
    pub dou__ble: V<8>,
    pub größe_in_m: V<5>,
}
dser! { root_s_nn1_lowercase: Nn1_lowercase; }
dde! { root_d_nn1_lowercase: Nn1_lowercase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename = "Type Name", rename_all = "UPPERCASE")]
pub struct Nm2_UPPERCASE {
    pub a: V<0>,
    pub foo_bar: V<1>,
    pub one_two_three: V<2>,
    pub r#type: V<3>,
    pub x1: V<4>,
    #[deser(rename = "Re Named")]
    pub other_name: V<5>,
    #[deser(alias = "al1", alias = "Al-2")]
    pub with_alias: V<6>,
    #[deser(rename = "bOth", alias = "both_of_them")]
    pub both_of: V<7>,
    pub a_b_c: V<8>,
    #[deser(rename = "", alias = "zeta")]
    pub zeta: V<9>,
}
dser! { root_s_nm2_uppercase: Nm2_UPPERCASE; }
dde! { root_d_nm2_uppercase: Nm2_UPPERCASE; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "UPPERCASE")]
pub struct Nn2_UPPERCASE {
    pub with2digits: V<0>,
    pub y_1: V<1>,
    pub a1_b2: V<2>,
    pub long_name_with_many_words_in_it: V<3>,
    #[deser(alias = "m")]
    pub r#match: V<4>,
    pub _lead: V<6>,
    pub trail_: V<7>,
    pub dou__ble: V<8>,
}
dser! { root_s_nn2_uppercase: Nn2_UPPERCASE; }
dde! { root_d_nn2_uppercase: Nn2_UPPERCASE; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "PascalCase")]
pub struct Nm3_PascalCase {
    pub a: V<0>,
    pub foo_bar: V<1>,
    pub one_two_three: V<2>,
    pub r#type: V<3>,
    pub x1: V<4>,
    #[deser(rename = "Re Named")]
    pub other_name: V<5>,
    #[deser(alias = "al1")]
    #[deser(alias = "Al-2")]
    pub with_alias: V<6>,
    #[deser(rename = "bOth")]
    #[deser(alias = "both_of_them")]
    pub both_of: V<7>,
    pub a_b_c: V<8>,
    #[deser(rename = "")]
    #[deser(alias = "zeta")]
    pub zeta: V<9>,
}
dser! { root_s_nm3_pascalcase: Nm3_PascalCase; }
dde! { root_d_nm3_pascalcase: Nm3_PascalCase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "PascalCase")]
pub struct Nn3_PascalCase {
    pub with2digits: V<0>,
    pub y_1: V<1>,
    pub a1_b2: V<2>,
    pub long_name_with_many_words_in_it: V<3>,
    #[deser(alias = "m")]
    pub r#match: V<4>,
    pub _lead: V<6>,
    pub trail_: V<7>,
    pub dou__ble: V<8>,
}
dser! { root_s_nn3_pascalcase: Nn3_PascalCase; }
dde! { root_d_nn3_pascalcase: Nn3_PascalCase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "camelCase")]
pub struct Nm4_camelCase {
    pub a: V<0>,
    pub foo_bar: V<1>,
    pub one_two_three: V<2>,
    pub r#type: V<3>,
    pub x1: V<4>,
    #[deser(rename = "Re Named")]
    pub other_name: V<5>,
    #[deser(alias = "al1", alias = "Al-2")]
    pub with_alias: V<6>,
    #[deser(rename = "bOth", alias = "both_of_them")]
    pub both_of: V<7>,
    pub a_b_c: V<8>,
    #[deser(rename = "", alias = "zeta")]
    pub zeta: V<9>,
}
dser! { root_s_nm4_camelcase: Nm4_camelCase; }
dde! { root_d_nm4_camelcase: Nm4_camelCase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "camelCase")]
pub struct Nn4_camelCase {
    pub with2digits: V<0>,
    pub y_1: V<1>,
    pub a1_b2: V<2>,
    pub long_name_with_many_words_in_it: V<3>,
    #[deser(alias = "m")]
    pub r#match: V<4>,
    pub _lead: V<6>,
    pub trail_: V<7>,
    pub dou__ble: V<8>,
    pub größe_in_m: V<5>,
}
dser! { root_s_nn4_camelcase: Nn4_camelCase; }
dde! { root_d_nn4_camelcase: Nn4_camelCase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename = "Type Name")]
#[deser(rename_all = "snake_case")]
pub struct Nm5_snakecase {
    pub a: V<0>,
    pub foo_bar: V<1>,
    pub one_two_three: V<2>,
    pub r#type: V<3>,
    pub x1: V<4>,
    #[deser(rename = "Re Named")]
    pub other_name: V<5>,
    #[deser(alias = "al1")]
    #[deser(alias = "Al-2")]
    pub with_alias: V<6>,
    #[deser(rename = "bOth")]
    #[deser(alias = "both_of_them")]
    pub both_of: V<7>,
    pub a_b_c: V<8>,
    #[deser(rename = "")]
    #[deser(alias = "zeta")]
    pub zeta: V<9>,
}
dser! { root_s_nm5_snakecase: Nm5_snakecase; }
dde! { root_d_nm5_snakecase: Nm5_snakecase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "snake_case")]
pub struct Nn5_snakecase {
    pub with2digits: V<0>,
    pub y_1: V<1>,
    pub a1_b2: V<2>,
    pub long_name_with_many_words_in_it: V<3>,
    #[deser(alias = "m")]
    pub r#match: V<4>,
    pub _lead: V<6>,
    pub trail_: V<7>,
    pub dou__ble: V<8>,
    pub größe_in_m: V<5>,
}
dser! { root_s_nn5_snakecase: Nn5_snakecase; }
dde! { root_d_nn5_snakecase: Nn5_snakecase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct Nm6_SCREAMINGSNAKECASE {
    pub a: V<0>,
    pub foo_bar: V<1>,
    pub one_two_three: V<2>,
    pub r#type: V<3>,
    pub x1: V<4>,
    #[deser(rename = "Re Named")]
    pub other_name: V<5>,
    #[deser(alias = "al1", alias = "Al-2")]
    pub with_alias: V<6>,
    #[deser(rename = "bOth", alias = "both_of_them")]
    pub both_of: V<7>,
    pub a_b_c: V<8>,
    #[deser(rename = "", alias = "zeta")]
    pub zeta: V<9>,
}
dser! { root_s_nm6_screamingsnakecase: Nm6_SCREAMINGSNAKECASE; }
dde! { root_d_nm6_screamingsnakecase: Nm6_SCREAMINGSNAKECASE; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct Nn6_SCREAMINGSNAKECASE {
    pub with2digits: V<0>,
    pub y_1: V<1>,
    pub a1_b2: V<2>,
    pub long_name_with_many_words_in_it: V<3>,
    #[deser(alias = "m")]
    pub r#match: V<4>,
    pub _lead: V<6>,
    pub trail_: V<7>,
    pub dou__ble: V<8>,
}
dser! { root_s_nn6_screamingsnakecase: Nn6_SCREAMINGSNAKECASE; }
dde! { root_d_nn6_screamingsnakecase: Nn6_SCREAMINGSNAKECASE; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "kebab-case")]
pub struct Nm7_kebabcase {
    pub a: V<0>,
    pub foo_bar: V<1>,
    pub one_two_three: V<2>,
    pub r#type: V<3>,
    pub x1: V<4>,
    #[deser(rename = "Re Named")]
    pub other_name: V<5>,
    #[deser(alias = "al1")]
    #[deser(alias = "Al-2")]
    pub with_alias: V<6>,
    #[deser(rename = "bOth")]
    #[deser(alias = "both_of_them")]
    pub both_of: V<7>,
    pub a_b_c: V<8>,
    #[deser(rename = "")]
    #[deser(alias = "zeta")]
    pub zeta: V<9>,
}
dser! { root_s_nm7_kebabcase: Nm7_kebabcase; }
dde! { root_d_nm7_kebabcase: Nm7_kebabcase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "kebab-case")]
pub struct Nn7_kebabcase {
    pub with2digits: V<0>,
    pub y_1: V<1>,
    pub a1_b2: V<2>,
    pub long_name_with_many_words_in_it: V<3>,
    #[deser(alias = "m")]
    pub r#match: V<4>,
    pub _lead: V<6>,
    pub trail_: V<7>,
    pub dou__ble: V<8>,
    pub größe_in_m: V<5>,
}
dser! { root_s_nn7_kebabcase: Nn7_kebabcase; }
dde! { root_d_nn7_kebabcase: Nn7_kebabcase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename = "Type Name", rename_all = "SCREAMING-KEBAB-CASE")]
pub struct Nm8_SCREAMINGKEBABCASE {
    pub a: V<0>,
    pub foo_bar: V<1>,
    pub one_two_three: V<2>,
    pub r#type: V<3>,
    pub x1: V<4>,
    #[deser(rename = "Re Named")]
    pub other_name: V<5>,
    #[deser(alias = "al1", alias = "Al-2")]
    pub with_alias: V<6>,
    #[deser(rename = "bOth", alias = "both_of_them")]
    pub both_of: V<7>,
    pub a_b_c: V<8>,
    #[deser(rename = "", alias = "zeta")]
    pub zeta: V<9>,
}
dser! { root_s_nm8_screamingkebabcase: Nm8_SCREAMINGKEBABCASE; }
dde! { root_d_nm8_screamingkebabcase: Nm8_SCREAMINGKEBABCASE; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
pub struct Nn8_SCREAMINGKEBABCASE {
    pub with2digits: V<0>,
    pub y_1: V<1>,
    pub a1_b2: V<2>,
    pub long_name_with_many_words_in_it: V<3>,
    #[deser(alias = "m")]
    pub r#match: V<4>,
    pub _lead: V<6>,
    pub trail_: V<7>,
    pub dou__ble: V<8>,
}
dser! { root_s_nn8_screamingkebabcase: Nn8_SCREAMINGKEBABCASE; }
dde! { root_d_nn8_screamingkebabcase: Nn8_SCREAMINGKEBABCASE; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "camelCase")]
pub struct NmGen<T> {
    #[deser(alias = "z")]
    pub zz: T,
    #[deser(rename = "zzz")]
    pub aa_a: V<1>,
}
dser! { root_s_nmgen: NmGen<V<0>>; }
dde! { root_d_nmgen: NmGen<V<0>>; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "kebab-case")]
pub struct NmMany {
    pub f0_x: V<0>,
    #[deser(alias = "g1")]
    pub f1_x: V<1>,
    pub f2_x: V<2>,
    pub f3_x: V<3>,
    pub f4_x: V<4>,
    #[deser(alias = "g5")]
    pub f5_x: V<5>,
    pub f6_x: V<6>,
    pub f7_x: V<7>,
    pub f8_x: V<8>,
    #[deser(alias = "g9")]
    pub f9_x: V<9>,
    pub f10_x: V<10>,
    pub f11_x: V<11>,
}
dser! { root_s_nmmany: NmMany; }
dde! { root_d_nmmany: NmMany; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct NmOne {
    pub only: V<0>,
}
dser! { root_s_nmone: NmOne; }
dde! { root_d_nmone: NmOne; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct NmZero {
}
dser! { root_s_nmzero: NmZero; }
dde! { root_d_nmzero: NmZero; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct Df_none {
    #[deser(rename = "Req")]
    pub req: V<0>,
    pub opt: Option<V<1>>,
    #[deser(default)]
    pub def: V<2>,
    #[deser(default = "crate::opq::make")]
    pub dfn: V<3>,
    #[deser(default = "crate::opq::make")]
    pub odf: Option<V<4>>,
    #[deser(default)]
    pub odi: Option<V<5>>,
    pub req2: V<6>,
}
dser! { root_s_df_none: Df_none; }
dde! { root_d_df_none: Df_none; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct DfAll_none {
    #[deser(default)]
    pub d1: V<0>,
    #[deser(default = "crate::opq::make")]
    pub d2: V<1>,
}
dser! { root_s_dfall_none: DfAll_none; }
dde! { root_d_dfall_none: DfAll_none; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "UPPERCASE")]
pub struct DfReq_none {
    pub r1: V<0>,
    pub r2: V<1>,
    pub r3: V<2>,
}
dser! { root_s_dfreq_none: DfReq_none; }
dde! { root_d_dfreq_none: DfReq_none; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct DfOpt_none {
    pub o1: Option<V<0>>,
    pub o2: Option<V<1>>,
}
dser! { root_s_dfopt_none: DfOpt_none; }
dde! { root_d_dfopt_none: DfOpt_none; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(default)]
pub struct Df_impl {
    #[deser(rename = "Req")]
    pub req: V<0>,
    pub opt: Option<V<1>>,
    #[deser(default)]
    pub def: V<2>,
    #[deser(default = "crate::opq::make")]
    pub dfn: V<3>,
    #[deser(default = "crate::opq::make")]
    pub odf: Option<V<4>>,
    #[deser(default)]
    pub odi: Option<V<5>>,
    pub req2: V<6>,
}
impl Default for Df_impl { fn default() -> Self { crate::opq::make() } }
dser! { root_s_df_impl: Df_impl; }
dde! { root_d_df_impl: Df_impl; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(default)]
pub struct DfAll_impl {
    #[deser(default)]
    pub d1: V<0>,
    #[deser(default = "crate::opq::make")]
    pub d2: V<1>,
}
impl Default for DfAll_impl { fn default() -> Self { crate::opq::make() } }
dser! { root_s_dfall_impl: DfAll_impl; }
dde! { root_d_dfall_impl: DfAll_impl; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "UPPERCASE", default)]
pub struct DfReq_impl {
    pub r1: V<0>,
    pub r2: V<1>,
    pub r3: V<2>,
}
impl Default for DfReq_impl { fn default() -> Self { crate::opq::make() } }
dser! { root_s_dfreq_impl: DfReq_impl; }
dde! { root_d_dfreq_impl: DfReq_impl; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(default)]
pub struct DfOpt_impl {
    pub o1: Option<V<0>>,
    pub o2: Option<V<1>>,
}
impl Default for DfOpt_impl { fn default() -> Self { crate::opq::make() } }
dser! { root_s_dfopt_impl: DfOpt_impl; }
dde! { root_d_dfopt_impl: DfOpt_impl; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(default = "mk_Df_fn")]
pub struct Df_fn {
    #[deser(rename = "Req")]
    pub req: V<0>,
    pub opt: Option<V<1>>,
    #[deser(default)]
    pub def: V<2>,
    #[deser(default = "crate::opq::make")]
    pub dfn: V<3>,
    #[deser(default = "crate::opq::make")]
    pub odf: Option<V<4>>,
    #[deser(default)]
    pub odi: Option<V<5>>,
    pub req2: V<6>,
}
pub fn mk_Df_fn() -> Df_fn { crate::opq::make() }
dser! { root_s_df_fn: Df_fn; }
dde! { root_d_df_fn: Df_fn; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(default = "mk_DfAll_fn")]
pub struct DfAll_fn {
    #[deser(default)]
    pub d1: V<0>,
    #[deser(default = "crate::opq::make")]
    pub d2: V<1>,
}
pub fn mk_DfAll_fn() -> DfAll_fn { crate::opq::make() }
dser! { root_s_dfall_fn: DfAll_fn; }
dde! { root_d_dfall_fn: DfAll_fn; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "UPPERCASE", default = "mk_DfReq_fn")]
pub struct DfReq_fn {
    pub r1: V<0>,
    pub r2: V<1>,
    pub r3: V<2>,
}
pub fn mk_DfReq_fn() -> DfReq_fn { crate::opq::make() }
dser! { root_s_dfreq_fn: DfReq_fn; }
dde! { root_d_dfreq_fn: DfReq_fn; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(default = "mk_DfOpt_fn")]
pub struct DfOpt_fn {
    pub o1: Option<V<0>>,
    pub o2: Option<V<1>>,
}
pub fn mk_DfOpt_fn() -> DfOpt_fn { crate::opq::make() }
dser! { root_s_dfopt_fn: DfOpt_fn; }
dde! { root_d_dfopt_fn: DfOpt_fn; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct DfZero {
}
dser! { root_s_dfzero: DfZero; }
dde! { root_d_dfzero: DfZero; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct Sk0 {
    #[deser(skip_serializing_if = "crate::opq::pred")]
    pub a: V<0>,
    pub b: V<1>,
    #[deser(skip_serializing_if = "crate::opq::pred")]
    pub c: V<2>,
    pub d: Option<V<3>>,
    #[deser(skip_serializing_if = "crate::opq::pred")]
    pub e: Option<V<4>>,
}
dser! { root_s_sk0: Sk0; }
dde! { root_d_sk0: Sk0; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct SkFlat0 {
    pub a: V<0>,
    #[deser(flatten)]
    pub f: V<1>,
    #[deser(skip_serializing_if = "crate::opq::pred")]
    pub b: V<2>,
}
dser! { root_s_skflat0: SkFlat0; }
dde! { root_d_skflat0: SkFlat0; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct SkFlatIf0 {
    #[deser(flatten, skip_serializing_if = "crate::opq::pred")]
    pub f: V<1>,
    #[deser(flatten)]
    pub g: V<2>,
    pub b: V<3>,
}
dser! { root_s_skflatif0: SkFlatIf0; }
dde! { root_d_skflatif0: SkFlatIf0; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct SkUnit0 {
    pub a: (),
    pub b: bool,
    pub c: Option<()>,
}
dser! { root_s_skunit0: SkUnit0; }
dde! { root_d_skunit0: SkUnit0; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(skip_serializing_optionals)]
pub struct Sk1 {
    #[deser(skip_serializing_if = "crate::opq::pred")]
    pub a: V<0>,
    pub b: V<1>,
    #[deser(skip_serializing_if = "crate::opq::pred")]
    pub c: V<2>,
    pub d: Option<V<3>>,
    #[deser(skip_serializing_if = "crate::opq::pred")]
    pub e: Option<V<4>>,
}
dser! { root_s_sk1: Sk1; }
dde! { root_d_sk1: Sk1; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(skip_serializing_optionals)]
pub struct SkFlat1 {
    pub a: V<0>,
    #[deser(flatten)]
    pub f: V<1>,
    #[deser(skip_serializing_if = "crate::opq::pred")]
    pub b: V<2>,
}
dser! { root_s_skflat1: SkFlat1; }
dde! { root_d_skflat1: SkFlat1; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(skip_serializing_optionals)]
pub struct SkFlatIf1 {
    #[deser(flatten, skip_serializing_if = "crate::opq::pred")]
    pub f: V<1>,
    #[deser(flatten)]
    pub g: V<2>,
    pub b: V<3>,
}
dser! { root_s_skflatif1: SkFlatIf1; }
dde! { root_d_skflatif1: SkFlatIf1; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(skip_serializing_optionals)]
pub struct SkUnit1 {
    pub a: (),
    pub b: bool,
    pub c: Option<()>,
}
dser! { root_s_skunit1: SkUnit1; }
dde! { root_d_skunit1: SkUnit1; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct Inner {
    pub x: V<6>,
    #[deser(skip_serializing_if = "crate::opq::pred")]
    pub y: Option<V<7>>,
}
dser! { root_s_inner: Inner; }
dde! { root_d_inner: Inner; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "camelCase")]
pub struct InnerB {
    #[deser(alias = "x")]
    pub z_z: V<8>,
    #[deser(default)]
    pub a: V<9>,
}
dser! { root_s_innerb: InnerB; }
dde! { root_d_innerb: InnerB; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct Fl5 {
    #[deser(flatten)]
    pub f: Inner,
    pub b: V<1>,
}
dser! { root_s_fl5: Fl5; }
dde! { root_d_fl5: Fl5; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct Fl1 {
    pub a: V<0>,
    #[deser(flatten)]
    pub f: V<1>,
    pub b: V<2>,
    #[deser(flatten)]
    pub g: V<3>,
}
dser! { root_s_fl1: Fl1; }
dde! { root_d_fl1: Fl1; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(default = "mk_Fl2")]
pub struct Fl2 {
    #[deser(flatten)]
    pub f: V<1>,
    #[deser(flatten)]
    pub g: V<3>,
}
pub fn mk_Fl2() -> Fl2 { crate::opq::make() }
dser! { root_s_fl2: Fl2; }
dde! { root_d_fl2: Fl2; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct Fl3 {
    pub a: V<0>,
    #[deser(flatten)]
    pub f: Inner,
    #[deser(flatten)]
    pub g: InnerB,
    pub b: V<1>,
}
dser! { root_s_fl3: Fl3; }
dde! { root_d_fl3: Fl3; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct Fl4 {
    #[deser(flatten)]
    pub h: Fl5,
    pub c: V<2>,
}
dser! { root_s_fl4: Fl4; }
dde! { root_d_fl4: Fl4; }
#[derive(deser::Serialize, deser::Deserialize)]
pub enum En0_none {
    A,
    FooBar,
    OneTwoThree,
    Zeta,
    X1,
    #[deser(rename = "Re Named")]
    OtherName,
    #[deser(alias = "al1", alias = "Al-2")]
    WithAlias,
    #[deser(rename = "bOth", alias = "both_of_them")]
    BothOf,
    AbC,
}
dser! { root_s_en0_none: En0_none; }
dde! { root_d_en0_none: En0_none; }
#[derive(deser::Serialize, deser::Deserialize)]
pub enum Eo0_none {
    V2Beta,
    LongNameWithManyWordsInIt,
    Aa1Bb,
    #[deser(alias = "m")]
    B,
    HttpOK,
    #[deser(alias = "a1", alias = "a2", alias = "a3")]
    XMLReader,
    GrößeInM,
}
dser! { root_s_eo0_none: Eo0_none; }
dde! { root_d_eo0_none: Eo0_none; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "lowercase")]
pub enum En1_lowercase {
    A,
    FooBar,
    OneTwoThree,
    Zeta,
    X1,
    #[deser(rename = "Re Named")]
    OtherName,
    #[deser(alias = "al1")]
    #[deser(alias = "Al-2")]
    WithAlias,
    #[deser(rename = "bOth")]
    #[deser(alias = "both_of_them")]
    BothOf,
    AbC,
}
dser! { root_s_en1_lowercase: En1_lowercase; }
dde! { root_d_en1_lowercase: En1_lowercase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "lowercase")]
pub enum Eo1_lowercase {
    V2Beta,
    LongNameWithManyWordsInIt,
    Aa1Bb,
    #[deser(alias = "m")]
    B,
    HttpOK,
    #[deser(alias = "a1", alias = "a2", alias = "a3")]
    XMLReader,
    GrößeInM,
}
dser! { root_s_eo1_lowercase: Eo1_lowercase; }
dde! { root_d_eo1_lowercase: Eo1_lowercase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "UPPERCASE")]
pub enum En2_UPPERCASE {
    A,
    FooBar,
    OneTwoThree,
    Zeta,
    X1,
    #[deser(rename = "Re Named")]
    OtherName,
    #[deser(alias = "al1", alias = "Al-2")]
    WithAlias,
    #[deser(rename = "bOth", alias = "both_of_them")]
    BothOf,
    AbC,
}
dser! { root_s_en2_uppercase: En2_UPPERCASE; }
dde! { root_d_en2_uppercase: En2_UPPERCASE; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "UPPERCASE")]
pub enum Eo2_UPPERCASE {
    V2Beta,
    LongNameWithManyWordsInIt,
    Aa1Bb,
    #[deser(alias = "m")]
    B,
    HttpOK,
    #[deser(alias = "a1", alias = "a2", alias = "a3")]
    XMLReader,
}
dser! { root_s_eo2_uppercase: Eo2_UPPERCASE; }
dde! { root_d_eo2_uppercase: Eo2_UPPERCASE; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "PascalCase")]
pub enum En3_PascalCase {
    A,
    FooBar,
    OneTwoThree,
    Zeta,
    X1,
    #[deser(rename = "Re Named")]
    OtherName,
    #[deser(alias = "al1")]
    #[deser(alias = "Al-2")]
    WithAlias,
    #[deser(rename = "bOth")]
    #[deser(alias = "both_of_them")]
    BothOf,
    AbC,
}
dser! { root_s_en3_pascalcase: En3_PascalCase; }
dde! { root_d_en3_pascalcase: En3_PascalCase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "PascalCase")]
pub enum Eo3_PascalCase {
    V2Beta,
    LongNameWithManyWordsInIt,
    Aa1Bb,
    #[deser(alias = "m")]
    B,
    HttpOK,
    #[deser(alias = "a1", alias = "a2", alias = "a3")]
    XMLReader,
}
dser! { root_s_eo3_pascalcase: Eo3_PascalCase; }
dde! { root_d_eo3_pascalcase: Eo3_PascalCase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "camelCase")]
pub enum En4_camelCase {
    A,
    FooBar,
    OneTwoThree,
    Zeta,
    X1,
    #[deser(rename = "Re Named")]
    OtherName,
    #[deser(alias = "al1", alias = "Al-2")]
    WithAlias,
    #[deser(rename = "bOth", alias = "both_of_them")]
    BothOf,
    AbC,
}
dser! { root_s_en4_camelcase: En4_camelCase; }
dde! { root_d_en4_camelcase: En4_camelCase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "camelCase")]
pub enum Eo4_camelCase {
    V2Beta,
    LongNameWithManyWordsInIt,
    Aa1Bb,
    #[deser(alias = "m")]
    B,
    HttpOK,
    #[deser(alias = "a1", alias = "a2", alias = "a3")]
    XMLReader,
    GrößeInM,
}
dser! { root_s_eo4_camelcase: Eo4_camelCase; }
dde! { root_d_eo4_camelcase: Eo4_camelCase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "snake_case")]
pub enum En5_snakecase {
    A,
    FooBar,
    OneTwoThree,
    Zeta,
    X1,
    #[deser(rename = "Re Named")]
    OtherName,
    #[deser(alias = "al1")]
    #[deser(alias = "Al-2")]
    WithAlias,
    #[deser(rename = "bOth")]
    #[deser(alias = "both_of_them")]
    BothOf,
    AbC,
}
dser! { root_s_en5_snakecase: En5_snakecase; }
dde! { root_d_en5_snakecase: En5_snakecase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "snake_case")]
pub enum Eo5_snakecase {
    V2Beta,
    LongNameWithManyWordsInIt,
    Aa1Bb,
    #[deser(alias = "m")]
    B,
    HttpOK,
    #[deser(alias = "a1", alias = "a2", alias = "a3")]
    XMLReader,
    GrößeInM,
}
dser! { root_s_eo5_snakecase: Eo5_snakecase; }
dde! { root_d_eo5_snakecase: Eo5_snakecase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum En6_SCREAMINGSNAKECASE {
    A,
    FooBar,
    OneTwoThree,
    Zeta,
    X1,
    #[deser(rename = "Re Named")]
    OtherName,
    #[deser(alias = "al1", alias = "Al-2")]
    WithAlias,
    #[deser(rename = "bOth", alias = "both_of_them")]
    BothOf,
    AbC,
}
dser! { root_s_en6_screamingsnakecase: En6_SCREAMINGSNAKECASE; }
dde! { root_d_en6_screamingsnakecase: En6_SCREAMINGSNAKECASE; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum Eo6_SCREAMINGSNAKECASE {
    V2Beta,
    LongNameWithManyWordsInIt,
    Aa1Bb,
    #[deser(alias = "m")]
    B,
    HttpOK,
    #[deser(alias = "a1", alias = "a2", alias = "a3")]
    XMLReader,
}
dser! { root_s_eo6_screamingsnakecase: Eo6_SCREAMINGSNAKECASE; }
dde! { root_d_eo6_screamingsnakecase: Eo6_SCREAMINGSNAKECASE; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "kebab-case")]
pub enum En7_kebabcase {
    A,
    FooBar,
    OneTwoThree,
    Zeta,
    X1,
    #[deser(rename = "Re Named")]
    OtherName,
    #[deser(alias = "al1")]
    #[deser(alias = "Al-2")]
    WithAlias,
    #[deser(rename = "bOth")]
    #[deser(alias = "both_of_them")]
    BothOf,
    AbC,
}
dser! { root_s_en7_kebabcase: En7_kebabcase; }
dde! { root_d_en7_kebabcase: En7_kebabcase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "kebab-case")]
pub enum Eo7_kebabcase {
    V2Beta,
    LongNameWithManyWordsInIt,
    Aa1Bb,
    #[deser(alias = "m")]
    B,
    HttpOK,
    #[deser(alias = "a1", alias = "a2", alias = "a3")]
    XMLReader,
    GrößeInM,
}
dser! { root_s_eo7_kebabcase: Eo7_kebabcase; }
dde! { root_d_eo7_kebabcase: Eo7_kebabcase; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum En8_SCREAMINGKEBABCASE {
    A,
    FooBar,
    OneTwoThree,
    Zeta,
    X1,
    #[deser(rename = "Re Named")]
    OtherName,
    #[deser(alias = "al1", alias = "Al-2")]
    WithAlias,
    #[deser(rename = "bOth", alias = "both_of_them")]
    BothOf,
    AbC,
}
dser! { root_s_en8_screamingkebabcase: En8_SCREAMINGKEBABCASE; }
dde! { root_d_en8_screamingkebabcase: En8_SCREAMINGKEBABCASE; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "SCREAMING-KEBAB-CASE")]
pub enum Eo8_SCREAMINGKEBABCASE {
    V2Beta,
    LongNameWithManyWordsInIt,
    Aa1Bb,
    #[deser(alias = "m")]
    B,
    HttpOK,
    #[deser(alias = "a1", alias = "a2", alias = "a3")]
    XMLReader,
}
dser! { root_s_eo8_screamingkebabcase: Eo8_SCREAMINGKEBABCASE; }
dde! { root_d_eo8_screamingkebabcase: Eo8_SCREAMINGKEBABCASE; }
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(rename_all = "lowercase")]
pub enum EnOne {
    #[deser(alias = "o")]
    Only,
}
dser! { root_s_enone: EnOne; }
dde! { root_d_enone: EnOne; }
#[derive(deser::Serialize, deser::Deserialize)]
pub struct Newtype(pub V<0>);
#[derive(deser::Serialize, deser::Deserialize)]
pub struct NewtypeG<T>(pub T);
#[derive(deser::Serialize, deser::Deserialize)]
pub struct NewtypeO(pub Option<V<0>>);
dser! { root_s_newtype: Newtype; root_s_newtypeg: NewtypeG<V<0>>; root_s_newtypeo: NewtypeO; }
dde! {
    root_d_newtype: Newtype; root_d_newtypeg: NewtypeG<V<0>>; root_d_newtypeopt: NewtypeO;
    root_d_optnewtype: Option<Newtype>;
}
// recursive types
#[derive(deser::Serialize, deser::Deserialize)]
pub struct Rec {
    v: V<0>,
    next: Option<Box<Rec>>,
    kids: Vec<Rec>,
    named: BTreeMap<String, Rec>,
    other: HashMap<String, RecNew>,
    pair: Option<(Box<Rec>, RecNew)>,
    #[deser(flatten)]
    flat: RecFlat,
}
#[derive(deser::Serialize, deser::Deserialize)]
pub struct RecFlat {
    inner: Option<Box<Rec>>,
}
#[derive(deser::Serialize, deser::Deserialize)]
pub struct RecNew(Vec<RecNew>);
#[derive(deser::Serialize)]
pub struct RecRef<'a> {
    up: Option<&'a RecRef<'a>>,
    all: &'a [RecRef<'a>],
}
dser! { root_s_rec: Rec; root_s_recnew: RecNew; root_s_recref: RecRef<'a>; }
dde! { root_d_rec: Rec; root_d_recnew: RecNew; }
// the sinks of fields
dde! { root_d_string: String; root_d_opt: Option<V<1>>; }
