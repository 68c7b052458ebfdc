// ASCII case of characters (assumed contracts of std).
pub open spec fn is_upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn is_lower(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn to_upper(c: char) -> char { if is_lower(c) { ((c as u8) - 32) as u8 as char } else { c } }
pub open spec fn to_lower(c: char) -> char { if is_upper(c) { ((c as u8) + 32) as u8 as char } else { c } }
pub assume_specification [ char::is_ascii_uppercase ] (c: &char) -> (r: bool) returns is_upper(*c);
pub assume_specification [ char::is_ascii_lowercase ] (c: &char) -> (r: bool) returns is_lower(*c);
pub assume_specification [ char::to_ascii_uppercase ] (c: &char) -> (r: char) returns to_upper(*c);
pub assume_specification [ char::to_ascii_lowercase ] (c: &char) -> (r: char) returns to_lower(*c);
