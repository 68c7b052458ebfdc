// ---- the codecs of prost, restated over dec_scalar (verified)
pub struct Of { pub k: Ghost<Kind>, pub gr: Ghost<Option<u32>> }
/// the codecs for a field of this kind, and number if it is a group
pub fn of(Ghost(k): Ghost<Kind>, Ghost(gr): Ghost<Option<u32>>) -> (r: Of) ensures r.k@ == k, r.gr@ == gr { Of { k: Ghost(k), gr: Ghost(gr) } }
impl Of {
pub fn bool<B: Buf>(self, wire_type: WireType, value: &mut bool, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Bool,
    ensures
        match dec_scalar(self.k@, G::Bool(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::Bool(*final(value)) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::bool::merge(wire_type, value, buf, ctx) }
pub fn int32<B: Buf>(self, wire_type: WireType, value: &mut i32, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Int32 || self.k@ is Enum,
    ensures
        self.k@ is Int32 ==> match dec_scalar(self.k@, G::I32(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::I32(*final(value)) == g && final(buf).rest() == t, None => r is Err },
        self.k@ is Enum ==> match dec_scalar(self.k@, G::Enum(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::Enum(*final(value)) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::int32::merge(wire_type, value, buf, ctx) }
pub fn sint32<B: Buf>(self, wire_type: WireType, value: &mut i32, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Sint32,
    ensures
        match dec_scalar(self.k@, G::I32(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::I32(*final(value)) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::sint32::merge(wire_type, value, buf, ctx) }
pub fn sfixed32<B: Buf>(self, wire_type: WireType, value: &mut i32, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Sfixed32,
    ensures
        match dec_scalar(self.k@, G::I32(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::I32(*final(value)) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::sfixed32::merge(wire_type, value, buf, ctx) }
pub fn int64<B: Buf>(self, wire_type: WireType, value: &mut i64, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Int64,
    ensures
        match dec_scalar(self.k@, G::I64(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::I64(*final(value)) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::int64::merge(wire_type, value, buf, ctx) }
pub fn sint64<B: Buf>(self, wire_type: WireType, value: &mut i64, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Sint64,
    ensures
        match dec_scalar(self.k@, G::I64(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::I64(*final(value)) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::sint64::merge(wire_type, value, buf, ctx) }
pub fn sfixed64<B: Buf>(self, wire_type: WireType, value: &mut i64, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Sfixed64,
    ensures
        match dec_scalar(self.k@, G::I64(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::I64(*final(value)) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::sfixed64::merge(wire_type, value, buf, ctx) }
pub fn uint32<B: Buf>(self, wire_type: WireType, value: &mut u32, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Uint32,
    ensures
        match dec_scalar(self.k@, G::U32(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::U32(*final(value)) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::uint32::merge(wire_type, value, buf, ctx) }
pub fn fixed32<B: Buf>(self, wire_type: WireType, value: &mut u32, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Fixed32,
    ensures
        match dec_scalar(self.k@, G::U32(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::U32(*final(value)) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::fixed32::merge(wire_type, value, buf, ctx) }
pub fn uint64<B: Buf>(self, wire_type: WireType, value: &mut u64, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Uint64,
    ensures
        match dec_scalar(self.k@, G::U64(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::U64(*final(value)) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::uint64::merge(wire_type, value, buf, ctx) }
pub fn fixed64<B: Buf>(self, wire_type: WireType, value: &mut u64, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Fixed64,
    ensures
        match dec_scalar(self.k@, G::U64(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::U64(*final(value)) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::fixed64::merge(wire_type, value, buf, ctx) }
pub fn float<B: Buf>(self, wire_type: WireType, value: &mut f32, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Float,
    ensures
        match dec_scalar(self.k@, G::F32(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::F32(*final(value)) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::float::merge(wire_type, value, buf, ctx) }
pub fn double<B: Buf>(self, wire_type: WireType, value: &mut f64, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Double,
    ensures
        match dec_scalar(self.k@, G::F64(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::F64(*final(value)) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::double::merge(wire_type, value, buf, ctx) }
pub fn string<B: Buf>(self, wire_type: WireType, value: &mut String, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is String,
    ensures
        match dec_scalar(self.k@, G::String(old(value)@), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::String(final(value)@) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::string::merge(wire_type, value, buf, ctx) }
pub fn bytes<B: Buf>(self, wire_type: WireType, value: &mut Bytes, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Bytes,
    ensures
        match dec_scalar(self.k@, G::Bytes(old(value)@), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::Bytes(final(value)@) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::bytes::merge(wire_type, value, buf, ctx) }
pub fn message<B: Buf>(self, wire_type: WireType, value: &mut DynamicMessage, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Message, self.gr@ is None,
    ensures match dec_scalar(self.k@, G::Message(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::Message(*final(value)) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::message::merge(wire_type, value, buf, ctx) }
pub fn group<B: Buf>(self, number: u32, wire_type: WireType, value: &mut DynamicMessage, buf: &mut B, ctx: DecodeContext) -> (r: Result<(), DecodeError>)
    requires self.k@ is Message, self.gr@ == Some(number),
    ensures match dec_scalar(self.k@, G::Message(*old(value)), self.gr@, wire_type, old(buf).rest(), ctx) { Some((g, t)) => r is Ok && G::Message(*final(value)) == g && final(buf).rest() == t, None => r is Err },
{ prost::encoding::group::merge(number, wire_type, value, buf, ctx) }
}
