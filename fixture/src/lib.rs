//! Entry points of the analysis: non generic functions which make the public
//! API of the crates under analysis available on opaque types.  This code is
//! never run.
#![allow(clippy::all)]
#![allow(dead_code)]
#![allow(mismatched_lifetime_syntaxes)]

pub mod opq;

pub mod roots {
    use crate::opq::*;
    use deser::de::*;
    use deser::ser::{
        Chunk, MapEmitter, SeqEmitter, Serialize, SerializeDriver, SerializeHandle,
        SerializerState, StructEmitter,
    };
    use deser::{Atom, Descriptor, Error, Event};
    use std::borrow::Cow;
    use std::collections::*;

    include!("core.rs");

    // ---- extensions
    pub fn root_ext_ser_get<'a>(s: &'a SerializerState<'_>) -> (std::cell::Ref<'a, Ext<0>>,) {
        (s.get::<Ext<0>>(),)
    }
    pub fn root_ext_ser_get1<'a>(s: &'a SerializerState<'_>) -> (std::cell::Ref<'a, Ext<1>>,) {
        (s.get::<Ext<1>>(),)
    }
    pub fn root_ext_ser_get_mut<'a>(s: &'a SerializerState<'_>) -> (std::cell::RefMut<'a, Ext<0>>,) {
        (s.get_mut::<Ext<0>>(),)
    }
    pub fn root_ext_ser_get_mut1<'a>(s: &'a SerializerState<'_>) -> (std::cell::RefMut<'a, Ext<1>>,) {
        (s.get_mut::<Ext<1>>(),)
    }
    pub fn root_ext_de_get<'a>(s: &'a DeserializerState<'_>) -> (std::cell::Ref<'a, Ext<0>>,) {
        (s.get::<Ext<0>>(),)
    }
    pub fn root_ext_de_get1<'a>(s: &'a DeserializerState<'_>) -> (std::cell::Ref<'a, Ext<1>>,) {
        (s.get::<Ext<1>>(),)
    }
    pub fn root_ext_de_get_mut<'a>(s: &'a DeserializerState<'_>) -> (std::cell::RefMut<'a, Ext<0>>,) {
        (s.get_mut::<Ext<0>>(),)
    }
    pub fn root_ext_de_get_mut1<'a>(s: &'a DeserializerState<'_>) -> (std::cell::RefMut<'a, Ext<1>>,) {
        (s.get_mut::<Ext<1>>(),)
    }
    pub fn root_ext_drop(x: (std::cell::Ref<'_, Ext<0>>,)) {
        drop(x)
    }
    pub fn root_ext_drop1(x: (std::cell::Ref<'_, Ext<1>>,)) {
        drop(x)
    }
    pub fn root_ext_drop_mut(x: (std::cell::RefMut<'_, Ext<0>>,)) {
        drop(x)
    }
    pub fn root_ext_drop_mut1(x: (std::cell::RefMut<'_, Ext<1>>,)) {
        drop(x)
    }
    pub fn root_ext_deref<'a>(x: &'a (std::cell::Ref<'a, Ext<0>>,)) -> &'a Ext<0> {
        &*x.0
    }
    pub fn root_ext_deref1<'a>(x: &'a (std::cell::Ref<'a, Ext<1>>,)) -> &'a Ext<1> {
        &*x.0
    }
    pub fn root_ext_deref_mut<'a>(x: &'a mut (std::cell::RefMut<'a, Ext<0>>,)) -> &'a mut Ext<0> {
        &mut *x.0
    }
    pub fn root_ext_deref_mut1<'a>(x: &'a mut (std::cell::RefMut<'a, Ext<1>>,)) -> &'a mut Ext<1> {
        &mut *x.0
    }

    // ---- serializing collections, wrappers and primitives
    macro_rules! ser {
        ($($name:ident: $ty:ty;)*) => { $(
            pub fn $name<'a>(x: &'a $ty) -> &'a dyn Serialize { x }
        )* };
    }
    type S<'x> = &'x [V<0>];
    ser! {
        root_s_bool: bool; root_s_unit: (); root_s_u8: u8; root_s_u16: u16; root_s_u32: u32;
        root_s_u64: u64; root_s_usize: usize; root_s_i8: i8; root_s_i16: i16; root_s_i32: i32;
        root_s_i64: i64; root_s_isize: isize; root_s_f32: f32; root_s_f64: f64; root_s_char: char;
        root_s_string: String; root_s_str: &'a str; root_s_cow: Cow<'a, str>;
        root_s_vec: Vec<V<0>>; root_s_slice: S<'a>;
        root_s_bmap: BTreeMap<V<0>, V<1>>; root_s_hmap: HashMap<V<0>, V<1>, BH>;
        root_s_bset: BTreeSet<V<0>>; root_s_hset: HashSet<V<0>>;
        root_s_opt: Option<V<0>>; root_s_ref: &'a V<0>; root_s_refmut: &'a mut V<0>;
        root_s_box: Box<V<0>>;
        root_s_t1: (V<0>,); root_s_t2: (V<0>, V<1>); root_s_t3: (V<0>, V<1>, V<2>);
        root_s_t4: (V<0>, V<1>, V<2>, V<3>);
        root_s_t5: (V<0>, V<1>, V<2>, V<3>, V<4>);
        root_s_t6: (V<0>, V<1>, V<2>, V<3>, V<4>, V<5>);
        root_s_t7: (V<0>, V<1>, V<2>, V<3>, V<4>, V<5>, V<6>);
        root_s_t8: (V<0>, V<1>, V<2>, V<3>, V<4>, V<5>, V<6>, V<7>);
        root_s_t9: (V<0>, V<1>, V<2>, V<3>, V<4>, V<5>, V<6>, V<7>, V<8>);
        root_s_t10: (V<0>, V<1>, V<2>, V<3>, V<4>, V<5>, V<6>, V<7>, V<8>, V<9>);
        root_s_t11: (V<0>, V<1>, V<2>, V<3>, V<4>, V<5>, V<6>, V<7>, V<8>, V<9>, V<10>);
        root_s_t12: (V<0>, V<1>, V<2>, V<3>, V<4>, V<5>, V<6>, V<7>, V<8>, V<9>, V<10>, V<11>);
        root_s_a0: [V<0>; 0]; root_s_a1: [V<0>; 1]; root_s_a2: [V<0>; 2]; root_s_a3: [V<0>; 3];
        root_s_vecu8: Vec<u8>; root_s_sliceu8: &'a [u8]; root_s_a3u8: [u8; 3];
        root_s_vecu16: Vec<u16>; root_s_veci8: Vec<i8>; root_s_vecbool: Vec<bool>;
        root_s_vecunit: Vec<()>; root_s_vecchar: Vec<char>; root_s_vecopt: Vec<Option<V<0>>>;
        root_s_vecvecu8: Vec<Vec<u8>>; root_s_vecboxu8: Vec<Box<u8>>; root_s_vecrefu8: Vec<&'a u8>;
    }

    // ---- deserializing
    macro_rules! de {
        ($($name:ident: $ty:ty;)*) => { $(
            pub fn $name<'a>(x: &'a mut Option<$ty>) -> SinkHandle<'a> {
                Deserialize::deserialize_into(x)
            }
        )* };
    }
    de! {
        root_d_bool: bool; root_d_unit: (); root_d_u8: u8; root_d_u16: u16; root_d_u32: u32;
        root_d_u64: u64; root_d_usize: usize; root_d_i8: i8; root_d_i16: i16; root_d_i32: i32;
        root_d_i64: i64; root_d_isize: isize; root_d_f32: f32; root_d_f64: f64; root_d_char: char;
        root_d_string: String;
        root_d_vec: Vec<V<0>>;
        root_d_bmap: BTreeMap<V<0>, V<1>>; root_d_hmap: HashMap<V<0>, V<1>, BH>;
        root_d_bset: BTreeSet<V<0>>; root_d_hset: HashSet<V<0>, BH>;
        root_d_opt: Option<V<0>>; root_d_box: Box<V<0>>;
        root_d_optbox: Option<Box<V<0>>>; root_d_boxopt: Box<Option<V<0>>>;
        root_d_optnull: Option<bool>;
        root_d_t1: (V<0>,); root_d_t2: (V<0>, V<1>); root_d_t3: (V<0>, V<1>, V<2>);
        root_d_t4: (V<0>, V<1>, V<2>, V<3>);
        root_d_t5: (V<0>, V<1>, V<2>, V<3>, V<4>);
        root_d_t6: (V<0>, V<1>, V<2>, V<3>, V<4>, V<5>);
        root_d_t7: (V<0>, V<1>, V<2>, V<3>, V<4>, V<5>, V<6>);
        root_d_t8: (V<0>, V<1>, V<2>, V<3>, V<4>, V<5>, V<6>, V<7>);
        root_d_t9: (V<0>, V<1>, V<2>, V<3>, V<4>, V<5>, V<6>, V<7>, V<8>);
        root_d_t10: (V<0>, V<1>, V<2>, V<3>, V<4>, V<5>, V<6>, V<7>, V<8>, V<9>);
        root_d_t11: (V<0>, V<1>, V<2>, V<3>, V<4>, V<5>, V<6>, V<7>, V<8>, V<9>, V<10>);
        root_d_t12: (V<0>, V<1>, V<2>, V<3>, V<4>, V<5>, V<6>, V<7>, V<8>, V<9>, V<10>, V<11>);
        root_d_a0: [V<0>; 0]; root_d_a1: [V<0>; 1]; root_d_a2: [V<0>; 2]; root_d_a3: [V<0>; 3];
        root_d_vecu8: Vec<u8>; root_d_a3u8: [u8; 3]; root_d_a0u8: [u8; 0];
        root_d_vecu16: Vec<u16>; root_d_veci8: Vec<i8>; root_d_vecbool: Vec<bool>;
        root_d_a2u16: [u16; 2]; root_d_a2bool: [bool; 2]; root_d_a2i8: [i8; 2];
        root_d_vecunit: Vec<()>; root_d_vecchar: Vec<char>;
    }

    // ---- conversions
    macro_rules! conv {
        ($($name:ident: $ty:ty => $to:ty;)*) => { $(
            pub fn $name<'a>(x: $ty) -> $to { From::from(x) }
        )* };
    }
    conv! {
        root_c_ev_u64: u64 => Event<'static>; root_c_ev_i64: i64 => Event<'static>;
        root_c_ev_f64: f64 => Event<'static>; root_c_ev_usize: usize => Event<'static>;
        root_c_ev_isize: isize => Event<'static>; root_c_ev_bool: bool => Event<'static>;
        root_c_ev_char: char => Event<'static>; root_c_ev_unit: () => Event<'static>;
        root_c_ev_str: &'a str => Event<'a>; root_c_ev_cow: Cow<'a, str> => Event<'a>;
        root_c_ev_bytes: &'a [u8] => Event<'a>; root_c_ev_string: String => Event<'static>;
        root_c_ev_atom: Atom<'a> => Event<'a>;
        root_c_ch_u64: u64 => Chunk<'static>; root_c_ch_i64: i64 => Chunk<'static>;
        root_c_ch_f64: f64 => Chunk<'static>; root_c_ch_usize: usize => Chunk<'static>;
        root_c_ch_isize: isize => Chunk<'static>; root_c_ch_bool: bool => Chunk<'static>;
        root_c_ch_char: char => Chunk<'static>; root_c_ch_unit: () => Chunk<'static>;
        root_c_ch_str: &'a str => Chunk<'a>; root_c_ch_bytes: &'a [u8] => Chunk<'a>;
        root_c_ch_string: String => Chunk<'static>; root_c_ch_atom: Atom<'a> => Chunk<'a>;
    }
    pub fn root_c_atom_static(a: &Atom<'_>) -> Atom<'static> {
        a.to_static()
    }
    pub fn root_c_event_static(a: &Event<'_>) -> Event<'static> {
        a.to_static()
    }
    pub fn root_c_atom_name<'a>(a: &'a Atom<'_>) -> &'a str {
        a.name()
    }
    pub fn root_c_atom_unexpected(a: &Atom<'_>, e: &str) -> Error {
        a.unexpected_error(e)
    }

    // ---- json
    pub fn root_json_de_new<'a>(x: &'a [u8]) -> deser_json::Deserializer<'a> {
        deser_json::Deserializer::new(x)
    }
    pub fn root_json_de<'a>(x: &mut deser_json::Deserializer<'a>) -> Result<V<0>, Error> {
        x.deserialize()
    }
    pub fn root_json_from_str(x: &str) -> Result<V<0>, Error> {
        deser_json::from_str(x)
    }
    pub fn root_json_to_string(x: &dyn Serialize) -> Result<String, Error> {
        deser_json::to_string(x)
    }
    pub fn root_json_ser(x: &dyn Serialize) -> Result<String, Error> {
        deser_json::Serializer::new().serialize(x)
    }
    pub fn root_json_ser_default(x: &dyn Serialize) -> Result<String, Error> {
        deser_json::Serializer::default().serialize(x)
    }

    // ---- path
    pub fn root_path_ser<'a>(x: &'a dyn Serialize) -> deser_path::PathSerializable<'a> {
        deser_path::PathSerializable::wrap(x)
    }
    pub fn root_path_ser_ref<'a>(x: SerializeHandle<'a>) -> deser_path::PathSerializable<'a> {
        deser_path::PathSerializable::wrap_ref(x)
    }
    pub fn root_path_ser_dyn<'a>(x: &'a deser_path::PathSerializable<'a>) -> &'a dyn Serialize {
        x
    }
    pub fn root_path_sink<'a>(x: &'a mut dyn Sink) -> deser_path::PathSink<'a> {
        deser_path::PathSink::wrap(x)
    }
    pub fn root_path_sink_ref<'a>(x: SinkHandle<'a>) -> deser_path::PathSink<'a> {
        deser_path::PathSink::wrap_ref(x)
    }
    pub fn root_path_sink_dyn<'a>(x: &'a mut deser_path::PathSink<'a>) -> &'a mut dyn Sink {
        x
    }
    pub fn root_path_sink_boxed<'a>(x: deser_path::PathSink<'a>) -> SinkHandle<'a> {
        SinkHandle::boxed(x)
    }
    pub fn root_path_of_ser(s: &SerializerState<'_>) -> Vec<deser_path::PathSegment> {
        s.get::<deser_path::Path>().segments().to_vec()
    }
    pub fn root_path_of_de(s: &DeserializerState<'_>) -> Vec<deser_path::PathSegment> {
        s.get::<deser_path::Path>().segments().to_vec()
    }

    // ---- debug
    pub fn root_debug_new(x: &dyn Serialize) -> deser_debug::ToDebug {
        deser_debug::ToDebug::new(x)
    }
    pub fn root_debug_fmt(x: &deser_debug::ToDebug, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(x, f)
    }
    pub fn root_debug_display(
        x: &deser_debug::ToDebug,
        f: &mut std::fmt::Formatter<'_>,
    ) -> std::fmt::Result {
        std::fmt::Display::fmt(x, f)
    }
}
