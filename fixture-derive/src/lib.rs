//! Entry points of the analysis of the derives: types with derived
//! implementations over opaque field types.  This code is never run.
#![allow(clippy::all)]
#![allow(dead_code)]
#![allow(non_camel_case_types)]
#![allow(mismatched_lifetime_syntaxes)]

#[path = "../../fixture/src/opq.rs"]
pub mod opq;

pub mod roots {
    use crate::opq::*;
    use deser::de::*;
    use deser::ser::{
        Chunk, MapEmitter, SeqEmitter, Serialize, SerializeDriver, SerializeHandle,
        SerializerState, StructEmitter,
    };
    use deser::{Atom, Descriptor, Error, Event};
    use std::borrow::Cow;
    use std::collections::*;

    include!("../../fixture/src/core.rs");
    include!("gen.rs");
}
