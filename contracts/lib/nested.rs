impl Message for DynamicMessage {
    uninterp spec fn raw(&self) -> Seq<u8>;
    uninterp spec fn merged(&self, s: Seq<u8>, limit: int, c: DecodeContext) -> Option<(Self, Seq<u8>)>;
    uninterp spec fn merged_group(&self, number: u32, s: Seq<u8>, c: DecodeContext) -> Option<(Self, Seq<u8>)>;
}
/// Merging consumes its input.
pub broadcast axiom fn group_shorter(m: DynamicMessage, number: u32, s: Seq<u8>, c: DecodeContext)
    ensures match #[trigger] m.merged_group(number, s, c) { Some((n, t)) => t.len() <= s.len(), None => true };
