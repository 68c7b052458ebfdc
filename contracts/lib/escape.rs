// ---- specification: the C escapes of a bytes default, as protoc writes and reads them

pub open spec fn is_oct(b: u8) -> bool { 0x30 <= b <= 0x37 }
pub open spec fn hex_byte(b: u8) -> Option<int> {
    if 0x30 <= b <= 0x39 { Some(b - 0x30) } else if 0x61 <= b <= 0x66 { Some(b - 0x61 + 10) }
    else if 0x41 <= b <= 0x46 { Some(b - 0x41 + 10) } else { None }
}
pub open spec fn simple(b: u8) -> Option<u8> {
    if b == 0x61 { Some(7u8) } else if b == 0x62 { Some(8u8) } else if b == 0x66 { Some(12u8) } else if b == 0x6e { Some(10u8) }
    else if b == 0x72 { Some(13u8) } else if b == 0x74 { Some(9u8) } else if b == 0x76 { Some(11u8) }
    else if b == 0x5c || b == 0x3f || b == 0x27 || b == 0x22 { Some(b) } else { None }
}
/// Number of octal digits from `p` on, at most three.
pub open spec fn oct_len(s: Seq<u8>, p: int) -> int {
    if p >= s.len() || !is_oct(s[p]) { 0 } else if p + 1 >= s.len() || !is_oct(s[p + 1]) { 1 }
    else if p + 2 >= s.len() || !is_oct(s[p + 2]) { 2 } else { 3 }
}
pub open spec fn oct_val(s: Seq<u8>, p: int, n: int) -> int {
    if n <= 0 { 0 }
    else if n == 1 { s[p] - 0x30 }
    else if n == 2 { (s[p] - 0x30) * 8 + (s[p + 1] - 0x30) }
    else { (s[p] - 0x30) * 64 + (s[p + 1] - 0x30) * 8 + (s[p + 2] - 0x30) }
}
/// One element (a plain byte or an escape) at `p`: the byte and where the next one starts.
pub open spec fn element(s: Seq<u8>, p: int) -> Option<(u8, int)> {
    if s[p] != 0x5c { Some((s[p], p + 1)) }
    else if p + 1 >= s.len() { None }
    else {
        let c = s[p + 1];
        if simple(c) is Some { Some((simple(c).unwrap(), p + 2)) }
        else if is_oct(c) {
            let n = oct_len(s, p + 1);
            if oct_val(s, p + 1, n) <= 255 { Some((oct_val(s, p + 1, n) as u8, p + 1 + n)) } else { None }
        } else if c == 0x78 || c == 0x58 {
            if p + 3 < s.len() && hex_byte(s[p + 2]) is Some && hex_byte(s[p + 3]) is Some {
                Some(((hex_byte(s[p + 2]).unwrap() * 16 + hex_byte(s[p + 3]).unwrap()) as u8, p + 4))
            } else { None }
        } else { None }
    }
}
#[verifier::opaque]
/// The bytes the text denotes from `p` on; None if it denotes none.
pub open spec fn unescaped(s: Seq<u8>, p: int) -> Option<Seq<u8>>
    decreases s.len() - p
{
    if p >= s.len() || p < 0 { Some(Seq::empty()) } else {
        match element(s, p) {
            None => None,
            Some((b, q)) => if q <= p { None } else {
                match unescaped(s, q) { None => None, Some(t) => Some(seq![b] + t) }
            },
        }
    }
}
pub proof fn unfold(s: Seq<u8>, p: int)
    ensures
        p >= s.len() ==> unescaped(s, p) == Some(Seq::<u8>::empty()),
        0 <= p < s.len() && element(s, p) is None ==> unescaped(s, p) is None,
        0 <= p < s.len() && element(s, p) is Some ==> {
            let (b, q) = element(s, p).unwrap();
            q > p && unescaped(s, p) == add(seq![b], unescaped(s, q))
        },
{
    reveal(unescaped);
    if 0 <= p < s.len() && s[p] == 0x5c && p + 1 < s.len() && is_oct(s[p + 1]) { assert(oct_len(s, p + 1) >= 1); }
}
pub proof fn add_assoc(a: Seq<u8>, b: u8, c: Option<Seq<u8>>)
    ensures add(a, add(seq![b], c)) == add(a.push(b), c),
{
    match c { None => {}, Some(t) => { assert(a + (seq![b] + t) =~= a.push(b) + t); } }
}
pub open spec fn add(a: Seq<u8>, b: Option<Seq<u8>>) -> Option<Seq<u8>> {
    match b { None => None, Some(t) => Some(a + t) }
}

