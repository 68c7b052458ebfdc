// ---- what each visitor makes of a document
//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct Int32Visitor
impl Visitor for Int32Visitor {
    type Value = i32;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<i32>) -> bool {
        match j {
            Json::Int(_) | Json::Str(_) => {
                &&& r is Some <==> in_range(int_of(j, false), i32::MIN as int, i32::MAX as int)
                &&& r is Some ==> r->Some_0 as int == int_of(j, false)->Some_0
            },
            Json::F32(_) | Json::F64(_) => true,
            _ => r is None,
        }
    }
}
//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct Int64Visitor
impl Visitor for Int64Visitor {
    type Value = i64;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<i64>) -> bool {
        match j {
            Json::Int(_) | Json::Str(_) => {
                &&& r is Some <==> in_range(int_of(j, false), i64::MIN as int, i64::MAX as int)
                &&& r is Some ==> r->Some_0 as int == int_of(j, false)->Some_0
            },
            Json::F32(_) | Json::F64(_) => true,
            _ => r is None,
        }
    }
}
//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct Uint32Visitor
impl Visitor for Uint32Visitor {
    type Value = u32;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<u32>) -> bool {
        match j {
            Json::Int(_) | Json::Str(_) => {
                &&& r is Some <==> in_range(int_of(j, true), 0, u32::MAX as int)
                &&& r is Some ==> r->Some_0 as int == int_of(j, true)->Some_0
            },
            Json::F32(_) | Json::F64(_) => true,
            _ => r is None,
        }
    }
}
//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct Uint64Visitor
impl Visitor for Uint64Visitor {
    type Value = u64;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<u64>) -> bool {
        match j {
            Json::Int(_) | Json::Str(_) => {
                &&& r is Some <==> in_range(int_of(j, true), 0, u64::MAX as int)
                &&& r is Some ==> r->Some_0 as int == int_of(j, true)->Some_0
            },
            Json::F32(_) | Json::F64(_) => true,
            _ => r is None,
        }
    }
}
//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct DoubleVisitor
impl Visitor for DoubleVisitor {
    type Value = f64;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<f64>) -> bool {
        match j {
            Json::F64(w) => r == Some(w),
            Json::F32(v) => r == Some(text64(v)),
            Json::Str(s) => (s == "Infinity"@ ==> r is Some && inf64(r->Some_0)) && (s == "-Infinity"@ ==> r is Some && neg_inf64(r->Some_0)) && (s == "NaN"@ ==> r is Some && nan64(r->Some_0)),
            Json::Int(_) => true,
            _ => r is None,
        }
    }
}
//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct FloatVisitor
impl Visitor for FloatVisitor {
    type Value = f32;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<f32>) -> bool {
        match j {
            Json::F64(w) => r == (if inf32(narrow(w)) || neg_inf32(narrow(w)) { None } else { Some(narrow(w)) }),
            Json::F32(v) => r == (if inf32(narrow(text64(v))) || neg_inf32(narrow(text64(v))) { None } else { Some(narrow(text64(v))) }),
            Json::Str(s) => (s == "Infinity"@ ==> r is Some && inf32(r->Some_0)) && (s == "-Infinity"@ ==> r is Some && neg_inf32(r->Some_0)) && (s == "NaN"@ ==> r is Some && nan32(r->Some_0)),
            Json::Int(_) => true,
            _ => r is None,
        }
    }
}
//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct StringVisitor
impl Visitor for StringVisitor {
    type Value = String;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<String>) -> bool { match j { Json::Str(s) => r is Some && r->Some_0@ == s, _ => r is None } }
}
//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct BoolVisitor
impl Visitor for BoolVisitor {
    type Value = bool;
    open spec fn ready(self) -> bool { true }
    open spec fn reads(self, j: Json, r: Option<bool>) -> bool { match j { Json::Bool(b) => r == Some(b), _ => r is None } }
}
//@@ item prost-reflect/src/dynamic/serde/de/kind.rs struct BytesVisitor
impl Visitor for BytesVisitor {
    type Value = Bytes;
    open spec fn ready(self) -> bool { true }
    /// The text of the bytes in either alphabet, padded or not.
    open spec fn reads(self, j: Json, r: Option<Bytes>) -> bool {
        match j {
            Json::Str(s) => forall|b: Seq<u8>, url: bool, padded: bool| s == #[trigger] base64_text(b, url, padded) ==> r is Some && r->Some_0@ == b,
            _ => r is None,
        }
    }
}
