//! Opaque user types.  The analysis never looks into the bodies of the
//! functions in this module: a call of any of them is "user code which may do
//! anything its signature allows" and is recorded as an event.
use deser::de::{DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, SerializerState};
use deser::{Atom, Descriptor, Deserialize, Error, Serialize};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::hash::{BuildHasher, Hash, Hasher};

fn opaque<T>() -> T {
    unimplemented!()
}

/// an opaque serializable and deserializable value
pub struct V<const N: usize>(pub Box<u8>);

impl<const N: usize> Drop for V<N> {
    fn drop(&mut self) {
        opaque()
    }
}

impl<const N: usize> Serialize for V<N> {
    fn serialize(&self, _state: &SerializerState) -> Result<Chunk, Error> {
        opaque()
    }
    fn finish(&self, _state: &SerializerState) -> Result<(), Error> {
        opaque()
    }
    fn is_optional(&self) -> bool {
        opaque()
    }
    fn descriptor(&self) -> &dyn Descriptor {
        opaque()
    }
}

impl<const N: usize> Deserialize for V<N> {
    fn deserialize_into(_out: &mut Option<Self>) -> SinkHandle {
        opaque()
    }
}

impl<const N: usize> PartialEq for V<N> {
    fn eq(&self, _o: &Self) -> bool {
        opaque()
    }
}
impl<const N: usize> Eq for V<N> {}
impl<const N: usize> PartialOrd for V<N> {
    fn partial_cmp(&self, _o: &Self) -> Option<Ordering> {
        opaque()
    }
}
impl<const N: usize> Ord for V<N> {
    fn cmp(&self, _o: &Self) -> Ordering {
        opaque()
    }
}
impl<const N: usize> Hash for V<N> {
    fn hash<H: Hasher>(&self, _h: &mut H) {
        opaque()
    }
}
impl<const N: usize> Default for V<N> {
    fn default() -> Self {
        opaque()
    }
}

/// an opaque hasher
#[derive(Clone)]
pub struct BH;
impl BuildHasher for BH {
    type Hasher = HS;
    fn build_hasher(&self) -> HS {
        opaque()
    }
}
impl Default for BH {
    fn default() -> BH {
        opaque()
    }
}
pub struct HS;
impl Hasher for HS {
    fn finish(&self) -> u64 {
        opaque()
    }
    fn write(&mut self, _b: &[u8]) {
        opaque()
    }
}

/// An opaque sink.
pub struct Snk(pub Box<u8>);
impl Drop for Snk {
    fn drop(&mut self) {
        opaque()
    }
}
impl Sink for Snk {
    fn atom(&mut self, _atom: Atom, _state: &DeserializerState) -> Result<(), Error> {
        opaque()
    }
    fn map(&mut self, _state: &DeserializerState) -> Result<(), Error> {
        opaque()
    }
    fn seq(&mut self, _state: &DeserializerState) -> Result<(), Error> {
        opaque()
    }
    fn next_key(&mut self, _state: &DeserializerState) -> Result<SinkHandle, Error> {
        opaque()
    }
    fn next_value(&mut self, _state: &DeserializerState) -> Result<SinkHandle, Error> {
        opaque()
    }
    fn value_for_key(
        &mut self,
        _key: &str,
        _state: &DeserializerState,
    ) -> Result<Option<SinkHandle>, Error> {
        opaque()
    }
    fn finish(&mut self, _state: &DeserializerState) -> Result<(), Error> {
        opaque()
    }
    fn descriptor(&self) -> &dyn Descriptor {
        opaque()
    }
    fn expecting(&self) -> Cow<'_, str> {
        opaque()
    }
}

/// A minimal sink which uses all the default methods.
pub struct DefaultSink;
impl Sink for DefaultSink {}

/// extension types
#[derive(Debug)]
pub struct Ext<const N: usize>(pub Box<u8>);
impl<const N: usize> Default for Ext<N> {
    fn default() -> Self {
        opaque()
    }
}

pub fn pred<T>(_x: &T) -> bool {
    opaque()
}
pub fn make<T>() -> T {
    opaque()
}
