// Entry points which all fixtures share; included in their module `roots`.
// ---- serialization driver
pub fn root_ser_new<'a>(v: &'a dyn Serialize) -> SerializeDriver<'a> {
    SerializeDriver::new(v)
}
pub fn root_ser_next<'a, 'b>(
    d: &'b mut SerializeDriver<'a>,
) -> Result<Option<(Event<'b>, &'b dyn Descriptor, &'b SerializerState<'b>)>, Error> {
    d.next()
}
pub fn root_ser_drop(d: SerializeDriver<'_>) {
    drop(d)
}
pub fn root_ser_driver_state<'b>(d: &'b SerializeDriver<'_>) -> &'b SerializerState<'b> {
    d.state()
}
pub fn root_ser_state<'b>(s: &'b SerializerState<'_>) -> (usize, Option<&'b dyn Descriptor>) {
    (s.depth(), s.top_descriptor())
}
pub fn root_desc<'b>(d: &'b dyn Descriptor) -> (Option<&'b str>, Option<usize>, bool) {
    (d.name(), d.precision(), d.unordered())
}
pub fn root_drop_event(d: Event<'_>) {
    drop(d)
}

// ---- deserialization driver
pub fn root_de_new<'a>(h: SinkHandle<'a>) -> DeserializeDriver<'a> {
    DeserializeDriver::from_sink(h)
}
pub fn root_de_new_v<'a>(out: &'a mut Option<V<0>>) -> DeserializeDriver<'a> {
    DeserializeDriver::new(out)
}
pub fn root_de_emit(d: &mut DeserializeDriver<'_>, e: Event<'_>) -> Result<(), Error> {
    d.emit(e)
}
pub fn root_de_drop(d: DeserializeDriver<'_>) {
    drop(d)
}
pub fn root_de_driver_state<'b>(d: &'b DeserializeDriver<'_>) -> &'b DeserializerState<'b> {
    d.state()
}
pub fn root_de_state<'b>(s: &'b DeserializerState<'_>) -> (usize, Option<&'b dyn Descriptor>) {
    (s.depth(), s.top_descriptor())
}
pub fn root_sink_mut<'a, 'b>(h: &'b mut SinkHandle<'a>) -> &'b mut (dyn Sink + 'a) {
    &mut **h
}
pub fn root_sink_ref<'a, 'b>(h: &'b SinkHandle<'a>) -> &'b (dyn Sink + 'a) {
    &**h
}
pub fn root_sink_box(s: Snk) -> SinkHandle<'static> {
    SinkHandle::boxed(s)
}
pub fn root_sink_to<'a>(s: &'a mut Snk) -> SinkHandle<'a> {
    SinkHandle::to(s)
}
pub fn root_sink_null() -> SinkHandle<'static> {
    SinkHandle::null()
}
pub fn root_sink_default() -> SinkHandle<'static> {
    SinkHandle::boxed(DefaultSink)
}
pub fn root_sink_drop(s: SinkHandle<'_>) {
    drop(s)
}
pub fn root_ser_handle_ref<'a, 'b>(h: &'b SerializeHandle<'a>) -> &'b (dyn Serialize + 'a) {
    &**h
}
pub fn root_ser_handle_to<'a>(h: &'a V<0>) -> SerializeHandle<'a> {
    SerializeHandle::to(h)
}
pub fn root_ser_handle_boxed(h: V<0>) -> SerializeHandle<'static> {
    SerializeHandle::boxed(h)
}
pub fn root_ser_handle_drop(h: SerializeHandle<'_>) {
    drop(h)
}
pub fn root_v0_dyn<'a>(h: &'a V<0>) -> &'a dyn Serialize {
    h
}
pub fn root_v0_into<'a>(h: &'a mut Option<V<0>>) -> SinkHandle<'a> {
    Deserialize::deserialize_into(h)
}
pub fn root_chunk_drop(c: Chunk<'_>) {
    drop(c)
}
pub fn root_result_drop(c: Result<(), Error>) {
    drop(c)
}

// virtual calls on whatever object
pub fn root_v_serialize<'a>(
    v: &'a dyn Serialize,
    s: &SerializerState<'_>,
) -> Result<Chunk<'a>, Error> {
    v.serialize(s)
}
pub fn root_v_finish(v: &dyn Serialize, s: &SerializerState<'_>) -> Result<(), Error> {
    v.finish(s)
}
pub fn root_v_is_optional(v: &dyn Serialize) -> bool {
    v.is_optional()
}
pub fn root_v_descriptor<'a>(v: &'a dyn Serialize) -> &'a dyn Descriptor {
    v.descriptor()
}
pub fn root_se_next<'a>(
    v: &'a mut dyn StructEmitter,
    s: &SerializerState<'_>,
) -> Result<Option<(Cow<'a, str>, SerializeHandle<'a>)>, Error> {
    v.next(s)
}
pub fn root_me_next_key<'a>(
    v: &'a mut dyn MapEmitter,
    s: &SerializerState<'_>,
) -> Result<Option<SerializeHandle<'a>>, Error> {
    v.next_key(s)
}
pub fn root_me_next_value<'a>(
    v: &'a mut dyn MapEmitter,
    s: &SerializerState<'_>,
) -> Result<SerializeHandle<'a>, Error> {
    v.next_value(s)
}
pub fn root_qe_next<'a>(
    v: &'a mut dyn SeqEmitter,
    s: &SerializerState<'_>,
) -> Result<Option<SerializeHandle<'a>>, Error> {
    v.next(s)
}
pub fn root_k_atom(k: &mut dyn Sink, a: Atom<'_>, s: &DeserializerState<'_>) -> Result<(), Error> {
    k.atom(a, s)
}
pub fn root_k_unexpected_atom(
    k: &mut dyn Sink,
    a: Atom<'_>,
    s: &DeserializerState<'_>,
) -> Result<(), Error> {
    k.unexpected_atom(a, s)
}
pub fn root_k_map(k: &mut dyn Sink, s: &DeserializerState<'_>) -> Result<(), Error> {
    k.map(s)
}
pub fn root_k_seq(k: &mut dyn Sink, s: &DeserializerState<'_>) -> Result<(), Error> {
    k.seq(s)
}
pub fn root_k_next_key<'a>(
    k: &'a mut dyn Sink,
    s: &DeserializerState<'_>,
) -> Result<SinkHandle<'a>, Error> {
    k.next_key(s)
}
pub fn root_k_next_value<'a>(
    k: &'a mut dyn Sink,
    s: &DeserializerState<'_>,
) -> Result<SinkHandle<'a>, Error> {
    k.next_value(s)
}
pub fn root_k_value_for_key<'a>(
    k: &'a mut dyn Sink,
    key: &str,
    s: &DeserializerState<'_>,
) -> Result<Option<SinkHandle<'a>>, Error> {
    k.value_for_key(key, s)
}
pub fn root_k_finish(k: &mut dyn Sink, s: &DeserializerState<'_>) -> Result<(), Error> {
    k.finish(s)
}
pub fn root_k_descriptor<'a>(k: &'a dyn Sink) -> &'a dyn Descriptor {
    k.descriptor()
}
pub fn root_k_expecting<'a>(k: &'a dyn Sink) -> Cow<'a, str> {
    k.expecting()
}

// ---- owned sinks
pub fn root_owned_new() -> OwnedSink<V<0>> {
    OwnedSink::deserialize()
}
pub fn root_owned_borrow<'a>(s: &'a OwnedSink<V<0>>) -> &'a SinkHandle<'a> {
    s.borrow()
}
pub fn root_owned_borrow_mut<'a>(s: &'a mut OwnedSink<V<0>>) -> &'a mut (dyn Sink + 'a) {
    AsSink::as_sink(s.borrow_mut())
}
// borrow_mut must not hand out the handle itself (see C03), but the analysis can cope with both
trait AsSink<'x> {
    fn as_sink<'b>(&'b mut self) -> &'b mut (dyn Sink + 'b);
}
impl<'x> AsSink<'x> for SinkHandle<'x> {
    fn as_sink<'b>(&'b mut self) -> &'b mut (dyn Sink + 'b) {
        &mut **self
    }
}
impl<'x> AsSink<'x> for dyn Sink + 'x {
    fn as_sink<'b>(&'b mut self) -> &'b mut (dyn Sink + 'b) {
        self
    }
}
pub fn root_owned_take(s: &mut OwnedSink<V<0>>) -> Option<V<0>> {
    s.take()
}
pub fn root_owned_drop(s: OwnedSink<V<0>>) {
    drop(s)
}
pub fn root_v_drop(s: V<0>) {
    drop(s)
}


pub fn root_err_kind(a: &Error) -> deser::ErrorKind {
    a.kind()
}
